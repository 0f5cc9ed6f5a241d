# One entry per property; read by mkmeta.py.
F = "tests/"
prop("C01", "Tunnelling currents equal the multi-tone spectral-domain theory",
     "For any circuit with one to four tones and any number of harmonics, any junction voltages and any response function, the "
     "calculated tunnelling current at every requested frequency (dc, tones, harmonics, mixing products, zero for frequencies that "
     "cannot be produced) equals an independent evaluation of the photon-assisted tunnelling sums.",
     ["inputs", "configurations"],
     "all circuits (1-4 tones, 1-4 harmonics), bias sweeps, complex drive voltages, truncation limits, response functions and "
     "requested output frequencies",
     "The tests compare a handful of single- and dual-tone cases (mostly against stored or single-tone formulas); multi-tone, "
     "multi-harmonic and mixing-product outputs at arbitrary drive are not sampled.",
     [QT, RF], [("spectral-domain sum over phase-factor coefficients, one branch per number of tones", QT),
                ("phase-factor coefficients from Bessel functions and harmonic convolution", QT),
                ("response matrix interpolated at shifted voltages", QT)],
     ["qmix.qtcurrent.qtcurrent", "qmix.qtcurrent.qtcurrent_all_freq"],
     "property-based testing: differential against an independent time/frequency-domain reference",
     "Random circuits against a reference evaluated by direct nested sums / FFT of the phase factor; agreement to 1e-6. Trusts the "
     "response function's own dc and Kramers-Kronig interpolations (checked by C09/C10).")

prop("C02", "Tunnelling currents do not depend on how the same situation is described",
     "Describing the same physical situation differently - tones in another order, unused tones or harmonics added, a harmonic declared "
     "as a tone, a shifted time origin, reversed bias, bias points calculated alone or together, outputs requested one by one or all at "
     "once - leaves the tunnelling currents unchanged up to the corresponding relabelling or phase. Currents are linear in the response "
     "function.",
     ["inputs", "configurations"],
     "all pairs of equivalent descriptions of random driven circuits",
     "Tests check a few such equalities for one fixed drive; the relations must hold for every circuit and drive.",
     [QT, RF], [("tone-count specific summation loops and output-frequency matching", QT),
                ("single/multiple output handling and interpolation preparation", QT)],
     ["qmix.qtcurrent.qtcurrent"],
     "property-based testing: metamorphic relations",
     "Each random case is evaluated twice in transformed form; agreement to about 1e-7. Needs no model of the physics.")

prop("C03", "Tunnelling currents obey the known closed-form limits",
     "Without drive only the dc current remains and equals the I-V curve; a linear junction gives Ohm's law; a weak signal sees the "
     "quantum admittance; and the dc current of incommensurate tones equals the I-V curve shifted by all photon combinations weighted "
     "with squared Bessel functions.",
     ["inputs"],
     "all circuits, drives and response functions inside each limit",
     "Tests sample one point of some limits; the limits quantify over all drive levels, frequencies and tones.",
     [QT, RF], [("Bessel coefficients and current sums", QT)], ["qmix.qtcurrent.qtcurrent"],
     "property-based testing: closed-form oracles",
     "Closed forms are evaluated independently with scipy Bessel functions; tolerance from truncation, about 1e-6.")

prop("C04", "A converged harmonic-balance solution satisfies every circuit equation",
     "Wherever harmonic balance reports convergence, the returned voltages satisfy source voltage = junction voltage + impedance x "
     "junction current at every tone and harmonic within the requested tolerance, for any number of tones and harmonics and whatever the "
     "starting point, damping or output mode. A linear junction is solved exactly (voltage divider).",
     ["inputs", "configurations"],
     "all embedding circuits (1-3 tones, 1-3 harmonics; complex, zero and idle sources), tolerances, dampings and starting points",
     "Tests check convergence of a few fixed circuits; the residual is a claim about every circuit and bias point.",
     [HB, QT], [("Newton iteration with numerical Jacobian per bias point", HB), ("error evaluation per signal", HB)],
     ["qmix.harmonic_balance.harmonic_balance"],
     "property-based testing: invariant (residual of the circuit equations from reference currents)",
     "Residual recomputed with the reference current calculation of C01, not with the solver's own error function.")

prop("C05", "Harmonic balance reports its own outcome truthfully",
     "The reported convergence status, iteration count and final error agree with the returned voltages in every output mode; "
     "non-convergence within the iteration limit is reported as such; the separate solution check accepts exactly the solutions within "
     "tolerance at every tone, harmonic and bias point.",
     ["inputs", "configurations", "fault_sequences"],
     "all circuits, iteration limits, tolerances, modes, and solutions altered at any one signal and bias point",
     "Tests only exercise circuits that converge, in one mode each, and never check a false claim.",
     [HB], [("convergence bookkeeping and output modes", HB), ("solution check", HB)],
     ["harmonic_balance outputs in modes", "check_hb_error"],
     "property-based testing: cross-mode and fault-injection (tampered solutions) checks",
     "Verdicts within 2 % of the tolerance are not judged.")

prop("C06", "Simulations leave their inputs alone and are reproducible in any order",
     "Calculating currents, solving circuits, checking, printing, saving and evaluating response functions never change the circuit, the "
     "response function, initial guesses or arrays handed in, also when the circuit is locked, and return the same result "
     "every time, whatever was calculated before.",
     ["histories", "inputs"],
     "all interleavings of calls on shared circuits and response functions",
     "Every test builds fresh objects and calls once; histories on shared objects are not sampled.",
     [QT, HB, CC, RF], [("copies of circuit arrays before iterating", HB), ("internal caches and prepared response matrices", QT)],
     ["bytes of all shared arrays before and after each call"],
     "stateful property-based testing: random call histories, snapshot comparison",
     "Histories of up to 14 calls on up to 3 circuits; bitwise comparison.")

prop("C07", "Embedding circuits convert consistently between physical and normalised units",
     "After any sequence of settings, a circuit's photon voltages, source voltages and impedances reported in any unit agree with what "
     "was set in any unit (Hz, GHz, V, mV, normalised, drive level, power in W/dBm and its inverse, ohms), the gap "
     "frequency, gap voltage, gap current and normal resistance are mutually consistent, and invalid settings are refused.",
     ["histories", "inputs"],
     "all sequences of setter and query calls on circuits with 1-4 tones and 1-3 harmonics, gap given in any form",
     "Tests set and read one value per unit on one circuit.",
     [CC], [("unit dictionaries and setters/getters", CC), ("available power / voltage relation", CC)],
     ["EmbeddingCircuit setters, getters, attributes and printed summary"],
     "stateful property-based testing: model of the normalised state",
     "Model written independently from CODATA constants; relative tolerance 1e-9.")

prop("C08", "Circuits survive saving and reading back; locks protect exactly what they should",
     "Saving a circuit's frequencies, voltages and impedances and reading them back restores every tone and harmonic to the precision of "
     "the file format, for values of any sign and size, and saving again writes the same file. A locked circuit refuses changes to its "
     "signals and an unlocked one accepts them again.",
     ["inputs", "histories"],
     "all circuits (1-4 tones, up to 12 harmonics) and all lock/unlock histories",
     "Tests round-trip one small circuit.",
     [CC], [("text export and parsing of the circuit", CC), ("read-only flags on arrays", CC)],
     ["save_info / read_circuit files", "lock / unlock"],
     "property-based testing: round trip; stateful lock model",
     "Precision of the file format (4 decimals / 2 decimals for impedances) is taken as given.")

prop("C09", "Response functions reproduce their I-V curve and its Kramers-Kronig transform",
     "A response function built from evenly spaced data or from a junction model returns, at every voltage inside and outside the "
     "data range, the I-V curve (odd) and the matching Kramers-Kronig transform (even), their derivatives, and complex responses built "
     "from them. With the accuracy check enabled an inaccurate response function is refused; data that do not run from zero past five gap voltages always are.",
     ["inputs"],
     "all smooth I-V curves, model parameters, grid and interpolation options, and all query voltages",
     "Tests check two model curves at a few voltages and loose tolerances.",
     [RF, KK, IVM], [("adaptive knot placement and spline interpolation", RF), ("reflection to negative voltages", RF),
                     ("linear extrapolation", RF)],
     ["idc, ikk, didc, dikk, __call__, resp_matrix-style evaluations"],
     "property-based testing: reference curves and product-integration Kramers-Kronig oracle",
     "Tolerance 0.012 (current) and 0.02 (transform) with default interpolation, tighter with dense interpolation.")

prop("C10", "Response functions from measured data follow the data, then the ohmic line",
     "A response function built from measured I-V data follows the data up to the voltage limit, is the normal-state line beyond it, and "
     "ignores data beyond the limit; asking for smearing convolves the I-V curve with a Gaussian of exactly the requested width, for "
     "measured, modelled and ideal curves.",
     ["inputs"],
     "all measured curves on even or uneven grids, limits and smearing widths",
     "Tests only construct such objects on one curve, and compare nothing about smearing.",
     [RF, FI, KK], [("resampling and joining to the ohmic line", RF), ("Gaussian filter", FI)], ["idc, ikk of every response class"],
     "property-based testing: reference convolution and curve oracle",
     "Needs data steps below 0.006 of the gap; tolerance 0.015 / 0.03.")

prop("C11", "Kramers-Kronig transforms are the Hilbert transform of the excess current",
     "The Kramers-Kronig transform of a sampled I-V curve equals the principal-value Hilbert transform of current minus voltage "
     "within discretisation error, by either available method; it is linear, blind to ohmic current, and follows translation, scaling and "
     "mirroring of the data; uneven voltage grids are refused.",
     ["inputs"],
     "all sampled excess currents on even grids, and all perturbations of the spacing",
     "Tests check one polynomial curve loosely.",
     [KK], [("FFT-based transform with padding", KK), ("trapezoidal principal-value transform", KK)],
     ["kk_trans, kk_trans_trapz"],
     "property-based testing: analytic pairs (Dawson), product-integration reference, algebraic relations",
     "Analytic tolerance 1e-3 of the peak, algebraic relations 1e-9.")

prop("C12", "I-V curve models are odd and match their formulas and requested resistances",
     "Every I-V curve model is odd in voltage, approaches the normal resistance far above the gap and the subgap resistance far below, "
     "and equals its published formula at all voltages, in any array shape, for integer or float input, including exactly at the gap.",
     ["inputs"],
     "all voltages within +-50 gaps, array shapes and dtypes, and all junction parameters",
     "Tests compare a few points with loose tolerances.",
     [IVM], [("closed-form models", IVM)], ["perfect, perfect_kk, polynomial, exponential, expanded"],
     "property-based testing: re-derived closed forms and symmetry relations",
     "Relative tolerance 1e-9; formulas re-derived from logistic functions.")

prop("C13", "Filters are centred normalised Gaussian averages; derivatives are derivatives",
     "The smoothing filter equals a normalised Gaussian average, centred on every point and mirrored at the ends of the data, for any "
     "data length, width and extent. The derivatives are exact for straight lines, are central differences, and stay within "
     "the local slopes of the data for every grid and span; too little data or an invalid span is refused.",
     ["inputs"],
     "all data series, lengths, whole and fractional widths, extents, grids and spans",
     "Tests use one or two smooth functions and loose tolerances.",
     [FI, MI], [("windowed convolution", FI), ("finite differences and local line fits", MI)],
     ["gauss_conv, slope, slope_span, slope_span_n"],
     "property-based testing: direct-summation reference and exactness on polynomials",
     "Filter truncation at the requested extent is part of the reference.")

prop("C14", "Data cleaning keeps one genuine measurement per voltage, in order",
     "Cleaning measured data removes exactly the points that contain NaN or repeat a voltage, keeps every other measurement with its own "
     "partner value, in order of voltage, for data of any length including none, and does not modify the data it is given.",
     ["inputs"],
     "all two- or more-column data sets with NaNs, repeats and any ordering",
     "Tests clean one short example per function.",
     [CL], [("NaN masks, duplicate removal, sorting for x/y pairs and matrices", CL)],
     ["remove_nans_xy, remove_doubles_xy, sort_xy and the matrix forms"],
     "property-based testing: multiset model",
     "Which of several repeats survives is left open.")

prop("C15", "Imported I-V data does not depend on how the measurement is written down",
     "Importing dc or pumped I-V data gives the same physical curve, offset, resistances and gap when the same measurement is expressed "
     "in other units, in reversed or hysteretic sweep order, with NaN or repeated rows, or with compensating gain factors; malformed data "
     "or unknown units are refused. The imported curve always lies on the requested voltage grid.",
     ["inputs", "configurations"],
     "all synthetic measurements, import options and rewritings",
     "Tests import one data set once with default units.",
     [IV, CL], [("unit conversion and cleaning", IV), ("one-pass selection of hysteretic sweeps", IV), ("offset, filter, resampling", IV)],
     ["dciv_curve, iv_curve"],
     "property-based testing: metamorphic relations",
     "Searched offsets compared within 0.02 uV; the gap voltage estimate within 0.5 % (it snaps to data points).")

prop("C16", "Analysing a dc I-V curve recovers the parameters of the junction behind it",
     "From a measured dc I-V curve of any junction, with any offset, series resistance, gain factor, sweep order and dirt in the data, the "
     "analysis recovers the junction's normalised curve, offset, gap voltage, normal and subgap resistance, leakage current and derived "
     "figures (quality, resistance-area product, current density) as requested by its options.",
     ["inputs", "configurations"],
     "all junctions, distortions of the measurement and analysis options",
     "Tests import one synthetic junction with default options and check a few figures loosely.",
     [IV, EXP, CL], [("offset search, series-resistance correction and filtering", IV), ("gap, normal and subgap resistance fits", IV),
                     ("derived figures and response functions", EXP)],
     ["dciv_curve, DCData attributes"],
     "property-based testing: synthetic measurements of known junctions",
     "Tolerances 0.3-2 % by quantity, wider with smoothing; bias steps of at most 5 uV.")

prop("C17", "Pumped I-V curves are imported on the scale of the unpumped curve",
     "A pumped I-V curve imported along with the unpumped curve of the same junction comes out normalised to that junction's gap voltage "
     "and current, corrected with the same offset, series resistance and gain factors (unless told otherwise), zero outside the measured "
     "range, with photon voltage and dynamic resistance of the pumped junction.",
     ["inputs", "configurations"],
     "all junctions, pump levels and frequencies, offsets, series resistances, sweeps and options",
     "Tests import one pumped curve with default options.",
     [IV, EXP], [("import of pumped curves with the dc metadata", IV), ("pumped data object", EXP)],
     ["iv_curve, PumpedData attributes"],
     "property-based testing: synthetic measurements of known pumped junctions",
     "Photon-assisted tunnelling curves are computed from the closed form, not with the library.")

prop("C18", "Impedance recovery finds the embedding circuit that produced a pumped curve",
     "From a pumped I-V curve produced by a known embedding impedance and source level, the recovery returns that impedance, source "
     "voltage and drive level within the resolution of its search, simulates the same I-V curve, and judges the quality of the fit "
     "truthfully for the fit range, search range, drive limit or forced impedance requested.",
     ["inputs", "configurations"],
     "all embedding impedances, drive levels, photon energies, fit and search options, and disturbed data",
     "Tests recover one circuit with defaults.",
     [EXP, HB, QT], [("impedance grid search and fit error", EXP), ("simulation of the recovered circuit", EXP)],
     ["PumpedData.zt, vt, zw, iac, simulated curve, fit flag"],
     "property-based testing: synthetic circuits solved by an independent large-signal solver",
     "One tone and one harmonic, as the method assumes; impedance within the search grid.")

prop("C19", "Hot and cold IF power gives the noise temperature and gain of the receiver",
     "Hot and cold IF power versus bias gives the noise temperature, gain and best operating point of the receiver that produced it, for any "
     "load temperatures, frequency, units, offset, smoothing and choice of operating point, with the IF noise and "
     "calibration taken from the unpumped data when available. Bias points without response do not win.",
     ["inputs", "configurations"],
     "all receivers, load temperatures, calibrations, units and analysis options",
     "Tests evaluate one data set with one set of options.",
     [IFD, EXP], [("Y-factor, noise temperature and gain", IFD), ("load radiation (Callen-Welton)", IFD), ("choice of best point", IFD)],
     ["if_data, PumpedData noise attributes"],
     "property-based testing: synthetic receivers with known noise temperature and gain",
     "Tolerances 1-3 % from smoothing and resampling.")

prop("C20", "IF data without LO is calibrated by the slope of the shot noise",
     "IF power without LO is converted to kelvin such that its shot-noise slope matches the theoretical value for the junction, for any "
     "units, offset, series resistance and power scale; IF noise, slope, fit line and conversion factor are those of the fitted "
     "range(s). IF data that are not a two-column table are refused.",
     ["inputs", "configurations"],
     "all power scales, slopes, IF noise levels, offsets, fit ranges (one, several, automatic) and sweeps",
     "Tests use one synthetic power curve.",
     [IFD, IV], [("shot-noise fit and conversion factor", IFD), ("loading of IF data", IFD)],
     ["dcif_data"],
     "property-based testing: synthetic calibrations with known factor",
     "Linear noise above the gap; tolerance 0.5-2 %.")

prop("C21", "Hot/cold spectra give the receiver's noise temperature at every IF frequency",
     "Hot and cold IF spectra in decibels give the noise temperature of the receiver at every IF frequency, independent of its gain, of the "
     "layout of the data and of the neighbouring points, for any load temperatures. Points without usable response get the largest allowed "
     "noise temperature; powers and frequencies are returned unchanged; anything but a three-column table is refused.",
     ["inputs"],
     "all spectra, load temperatures, caps and data layouts",
     "Tests import one spectrum and look only at the range of the result.",
     [IFR], [("Y-factor from decibels, cap of unusable points", IFR)], ["if_response"],
     "property-based testing: synthetic receivers with known noise temperature",
     "Tolerance is the rounding of the powers; points exactly at the cap are judged loosely.")

prop("C22", "Analysing data leaves raw data, options and earlier results alone",
     "Importing, analysing, refusing, printing and plotting measurements never changes the raw data, the options, the default parameters "
     "or any earlier result, gives the same result every time whatever was done before, and gives results that do not follow later "
     "changes of the raw data. Class and function interfaces, and explicit and implicit defaults, agree.",
     ["histories", "inputs"],
     "all interleavings of imports, analyses, refused imports and plots over shared data, options and results, in any memory layout",
     "Tests import fresh data once; sharing, repetition and aliasing are never exercised.",
     [EXP, IV, IFD, IFR, PAR, CL], [("copies of raw data and options on import", IV), ("merging of options with the defaults", EXP),
                                    ("IF data correction in place", IFD)],
     ["bytes of raw data, options, defaults and results before and after each step"],
     "stateful property-based testing: random histories with snapshot comparison",
     "Histories of up to 10 operations over up to two sets of data.")

prop("C23", "Figures and exported files show what the analysed data hold",
     "Every figure shows the numbers of the analysed data in the units stated, on the axes or in the file asked for; exported text files hold "
     "the same numbers to their printed precision; figures and files are created in the documented places and nowhere else, for "
     "any number of data sets and with or without IF data. Drawing and exporting change nothing.",
     ["inputs", "configurations"],
     "all analysed data sets, plotting methods, axes, file layouts and numbers and orders of data sets",
     "All plotting and export code is excluded from the tests.",
     [EXP, RF], [("plotting methods of unpumped and pumped data", EXP), ("overall results and text export", EXP),
                 ("spectrum figures, result folders", EXP), ("response-function figures", RF)],
     ["lines drawn on matplotlib axes; saved figures; text files"],
     "property-based testing: lines and files compared with the data, independent simulation of the recovered circuit",
     "Numbers are taken from the figure objects; the pixels are matplotlib's responsibility.")

prop("C24", "Printed reports state the results, in the units they name",
     "The reports printed by imports, impedance recovery, noise analysis, circuits, solvers and response functions show the results that are "
     "returned - each number to its printed digits, in the unit it names, for the signal or iteration it names, including sign "
     "and imaginary part. Warnings (normal resistance below 1 or above 50 ohms, no data in the shot-noise range, error target missed) appear "
     "exactly when they apply. Whether a report is printed never changes a result.",
     ["inputs", "configurations"],
     "all junctions, pumped measurements, circuits (1-4 tones, 1-3 harmonics, named or not, with or without gap properties), solver runs and "
     "numbers",
     "Tests call the verbose variants but discard what they print.",
     [EXP, CC, HB, QT, RF, "qmix/misc/terminal.py", "qmix/misc/progbar.py"],
     [("reports of unpumped and pumped data", EXP), ("circuit information", CC), ("errors and outcome per iteration", HB),
      ("number formatting", "qmix/misc/terminal.py")],
     ["standard output of verbose calls, str() of results"],
     "property-based testing: printed numbers parsed and compared with returned results and independent formulas",
     "Layout is free as long as labels, units and numbers can be found in the text.")

prop("C25", "Results depend on the numbers handed in, not on how they are stored",
     "The same numbers give the same results whether an array is contiguous, strided, reversed, transposed, write-protected, of a subclass or "
     "foreign byte order, holds signed, unsigned or single-precision numbers, whether an option is a Python or numpy number and "
     "whether a range is a tuple or a list. Scalars and arrays agree.",
     ["inputs", "configurations"],
     "all public numerical functions, models, response functions, simulations, circuit settings and data imports, with every storage form of their arguments",
     "Tests pass contiguous double-precision arrays and Python numbers only.",
     [MI, "qmix/mathfn/kktrans.py", IVM, CL, QT, HB, RF, CC, IV, IFD, IFR],
     [("slopes and transforms of array data", MI), ("scalar and array branches of the models", IVM), ("compiled current sums and matrices", QT),
      ("conversion of raw data to numbers", IV)],
     ["return values of the same call on differently stored equal numbers"],
     "property-based testing: metamorphic relation between storage forms",
     "Agreement to 1e-9 (3e-5 for single precision). Forms that are refused with an exception (write-protected response matrices, lists in place of "
     "arrays, numpy integers as summation limits) are left out.")

prop("C26", "Options left out mean their documented values; older spellings still work",
     "Calling a function or making an object without an option gives the same result as writing out the documented default, whatever the other options "
     "are, and options given in the documented order equal options given by name. The older spellings that the change log promises to keep "
     "(ends of the normal-resistance range, cut-offs of the photon step, one number for the offset range, filter width in steps, a single shot-noise "
     "range, photon voltage for frequency) give the same result as the present ones.",
     ["inputs", "configurations"],
     "all public functions and classes with options, all subsets of options set to other values",
     "Tests use either the defaults or explicit values, never both on one problem; changed defaults and ignored older spellings go unnoticed.",
     [HB, QT, CC, RF, IVM, PAR, IV, IFD, IFR, EXP, MI, CL],
     [("default values of solver and circuit options", HB), ("default parameters of the analysis", PAR), ("interpolation defaults per response function", RF),
      ("older spellings of analysis options", EXP)],
     ["return values, printed text and figures of calls with and without explicit options"],
     "property-based testing: differential between implicit and explicit options, against a hand-written table of documented defaults",
     "The table is a copy of the documentation; agreement to 1e-9.")
