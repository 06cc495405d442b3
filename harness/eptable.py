"""Parameters of EPREM: name -> (type, default, unit, aliases); a string default of a number is an expression.

Restated here so that the package's own tables are not the reference."""
PARAMETERS = {
    'FailModeDump': (int, 1, None, ()),
    'aziSunStart': (float, 0.0, None, ()),
    'boundaryFunctAmplitude': (float, 1.0, '1 / (cm^2 * s * sr * (MeV/nuc))', ('J0',)),
    'boundaryFunctBeta': (float, 1.7, '1', ('beta',)),
    'boundaryFunctEcutoff': (float, 1.0, 'MeV', ('E0',)),
    'boundaryFunctGamma': (float, 2.0, '1', ('gamma',)),
    'boundaryFunctXi': (float, 1.0, '1', ('xi',)),
    'boundaryFunctionInitDomain': (int, 1, None, ()),
    'charge': (list, [1.0], 'e', ()),
    'checkSeedPopulation': (int, 1, None, ()),
    'clusterNodes': (int, 0, None, ()),
    'dsh_hel_min': (float, 0.00025, None, ()),
    'dsh_min': (float, 5e-05, None, ()),
    'dumpFreq': (int, 1, None, ()),
    'dumpOnAbort': (int, 0, None, ()),
    'eMax': (float, 1000.0, 'MeV/nuc', ()),
    'eMin': (float, 1.0, 'MeV/nuc', ()),
    'epCalcStartTime': (float, 'config.simStartTime', None, ()),
    'epEquilibriumCalcDuration': (float, 0.0, 'day', ()),
    'epremDomain': (int, 0, None, ()),
    'epremDomainOutputTime': (float, 0.0, None, ()),
    'fieldAligned': (int, 0, None, ()),
    'flowMag': (float, 40000000.0, 'cm/s', ()),
    'fluxLimiter': (int, 1, None, ()),
    'focusingLimit': (float, 1.0, None, ()),
    'gammaEhigh': (float, 0.0, '1', ()),
    'gammaElow': (float, 0.0, '1', ()),
    'idealShock': (int, 0, None, ()),
    'idealShockInitTime': (float, 'config.simStartTime', 'day', ()),
    'idealShockJump': (float, 4.0, '1', ()),
    'idealShockPhi': (float, 0.0, 'rad', ()),
    'idealShockScaleLength': (float, 0.0046491, 'au', ()),
    'idealShockSharpness': (float, 1.0, '1', ()),
    'idealShockSpeed': (float, 150000000.0, 'cm/s', ()),
    'idealShockTheta': (float, 1.570796, 'rad', ()),
    'idealShockWidth': (float, 0.0, 'rad', ()),
    'idw_p': (float, 3.0, '1', ()),
    'kperxkpar': (float, 0.01, '1', ('kper_kpar', 'kper/kpar', 'kper / kpar')),
    'lamo': (float, 1.0, 'au', ('lam0', 'lambda0')),
    'masCorRotateFake': (int, 0, None, ()),
    'masCouple': (int, 0, None, ()),
    'masCoupledTime': (int, 1, None, ()),
    'masDigits': (int, 3, None, ()),
    'masDirectory': (str, '', None, ()),
    'masHelCouple': (int, 0, None, ()),
    'masHelDigits': (int, 3, None, ()),
    'masHelDirectory': (str, '', None, ()),
    'masHelNumFiles': (int, 0, None, ()),
    'masHelRadialMax': (float, 0.0, None, ()),
    'masHelRadialMin': (float, 0.0, None, ()),
    'masInitFromOuterBoundary': (int, 2, None, ()),
    'masInitMonteCarlo': (int, 0, None, ()),
    'masInitRadius': (float, 0.0, None, ()),
    'masInitTimeStep': (float, 1.1574074074e-05, 'day', ()),
    'masNumFiles': (int, 0, None, ()),
    'masRadialMax': (float, 0.0, None, ()),
    'masRadialMin': (float, 0.0, None, ()),
    'masRotateSolution': (int, 1, None, ()),
    'masStartTime': (float, 0.0, 'day', ()),
    'masSteadyState': (int, 1, None, ()),
    'masTriLinear': (int, 1, None, ()),
    'masVmin': (float, 5000000.0, None, ()),
    'mass': (list, [1.0], 'nucleon', ()),
    'mfpRadialPower': (float, 2.0, '1', ('mfp_radial_power',)),
    'mhdBAu': (float, 1.6e-05, 'G', ()),
    'mhdDensityAu': (float, 8.3, 'cm^-3', ()),
    'minInjectionEnergy': (float, 0.01, 'MeV', ()),
    'nodeClusterPhi': (float, 0.0, None, ()),
    'nodeClusterTheta': (float, 1.570796, None, ()),
    'nodeClusterWidth': (float, 0.0, None, ()),
    'numColumnsPerFace': (int, 2, None, ()),
    'numEnergySteps': (int, 20, None, ()),
    'numEpSteps': (int, 30, None, ()),
    'numMuSteps': (int, 20, None, ()),
    'numNodesPerStream': (int, None, None, ()),
    'numObservers': (int, 0, '1', ()),
    'numRowsPerFace': (int, 2, None, ()),
    'numSpecies': (int, 1, None, ()),
    'obsPhi': (list, [0], 'rad', ()),
    'obsR': (list, [0], 'au', ()),
    'obsTheta': (list, [0], 'rad', ()),
    'omegaSun': (float, '(0.004144/MAS_TIME_NORM)*TAU', 'rad * cm / (au * s)', ()),
    'outputFloat': (int, 0, None, ()),
    'outputRestart': (int, 0, None, ()),
    'parallelFlow': (float, 0.0, None, ()),
    'pointObserverOutput': (int, 0, None, ()),
    'pointObserverOutputTime': (float, 0.0, None, ()),
    'preEruptionDuration': (float, 0.0, 'day', ()),
    'rScale': (float, 0.005, 'au', ()),
    'rigidityPower': (float, 'third', '1', ('rigidity_power',)),
    'saveRestartFile': (int, 0, None, ()),
    'seedFunctionTest': (int, 0, None, ()),
    'shockDetectPercent': (float, 1.0, '1', ()),
    'shockInjectionFactor': (float, 1.0, '1', ()),
    'shockSolver': (int, 0, None, ()),
    'simStartTime': (float, 0.0, 'day', ()),
    'simStopTime': (float, 'config.simStartTime + config.tDel', 'day', ()),
    'streamFluxOutput': (int, 0, None, ()),
    'streamFluxOutputTime': (float, 0.0, None, ()),
    'subTimeCouple': (int, 0, None, ()),
    'tDel': (float, 0.01041666666667, 'day', ()),
    'unifiedOutput': (int, 1, None, ()),
    'unifiedOutputTime': (float, 0.0, None, ()),
    'unstructuredDomain': (int, 0, None, ()),
    'unstructuredDomainOutputTime': (float, 0.0, None, ()),
    'useAdiabaticChange': (int, 1, None, ()),
    'useAdiabaticFocus': (int, 1, None, ()),
    'useBoundaryFunction': (int, 1, None, ()),
    'useDrift': (int, 0, None, ()),
    'useEPBoundary': (int, 1, None, ()),
    'useMasSteadyStateDt': (int, 1, None, ()),
    'useParallelDiffusion': (int, 1, None, ()),
    'useShellDiffusion': (int, 0, None, ()),
    'useStochastic': (int, 0, None, ()),
    'warningsFile': (str, 'warningsXXX.txt', None, ()),
}
CONSTANTS = {
    'AU': '1.495978707e13',
    'BADINT': '2147483647',
    'BADVALUE': '1.0e33',
    'C': '2.99792458e10',
    'DAY': '( TAU / (24.0 * 60.0 * 60.0)  )',
    'EV': '1.6022e-12',
    'F': '0',
    'FCONVERT': '( 1.0e30 / (C * C * C * C) )',
    'GEV': '1.6022e-3',
    'MAS_B_CONVERT': 'sqrt(4.0*PI*MAS_RHO_NORM)*MAS_LENGTH_NORM / MAS_TIME_NORM / MHD_B_NORM',
    'MAS_LENGTH_NORM': '6.96e10',
    'MAS_RHO_CONVERT': '(MAS_RHO_NORM / MP) / MHD_DENSITY_NORM',
    'MAS_RHO_NORM': '1.6726e-16',
    'MAS_TIME_CONVERT': 'MAS_TIME_NORM / (24.0 * 60.0 * 60.0)',
    'MAS_TIME_NORM': '1445.87003080685',
    'MAS_V_CONVERT': '( MAS_LENGTH_NORM / MAS_TIME_NORM ) / C',
    'MAX_STRING_SIZE': '240',
    'MEV': '1.6022e-6',
    'MHD_BATSRUS': '3',
    'MHD_B_NORM': '( sqrt(MP*MHD_DENSITY_NORM) * C )',
    'MHD_DEFAULT': '0',
    'MHD_DENSITY_NORM': '1.0',
    'MHD_ENLIL': '1',
    'MHD_LFMH': '2',
    'MHD_MAS': '4',
    'MP': '1.6726e-24',
    'MZERO': '(MP*C*C/GEV)',
    'NUM_MPI_BOUNDARY_FLDS': '2',
    'OM': '( MHD_B_NORM * Q * AU / (MP * C * C) )',
    'PI': '3.1415926535897932',
    'Q': '4.80320425e-10',
    'RSAU': '(RSUN/AU)',
    'RSUN': '6.96e10',
    'T': '1',
    'TAU': '( AU / C )',
    'THRESH': '0.025',
    'TWO_PI': '6.283185307179586',
    'VERYSMALL': '1.0e-33',
    'VOLT': '0.33333e-2',
}
