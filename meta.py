"""The properties, and how each check is described in MANIFEST.json."""
NOT_APPLICABLE = []
PROPS = []


def P(**k):
    PROPS.append(k)


SUB = "emc2/simulator/subcolumn.py"

P(id="C01", title="Convective classes fill exactly their fraction of the subcolumns",
  statement="In every grid cell the number of subcolumns flagged as holding a convective hydrometeor class is that class's "
  "convective fraction times the number of subcolumns, rounded to a whole number (zero where the radiation logic is used and "
  "the class's mixing ratio does not exceed the truncation threshold), and the flagged sets of different classes and levels of "
  "a column are nested. With a single subcolumn a cell is flagged exactly where the mixing ratio exceeds the threshold. A call "
  "that asks for a different number of subcolumns than already set is refused, and input fields are never modified.",
  quant="All fractions, mixing ratios, grid sizes, subcolumn counts, thresholds, radiation/microphysics logic and class orders.",
  why="The tests look at one analytic sounding with fractions 0, 0.5 or 1 and one time; rounding, partial fills, thresholds and "
  "overlap of unequal fractions are never reached.",
  mech=[("convective fraction allocation", SUB + ":set_convective_sub_col_frac")],
  tech="generated models, count and nesting predicates over the public allocation call",
  note="Every cell of every generated model is checked against the fraction; ties of the rounding may go either way.")

P(id="C02", title="Stratiform cloud fills its fraction with maximum-random overlap",
  statement="Below the model's top level, the number of subcolumns holding stratiform liquid (or ice) cloud is its fraction times "
  "the number of subcolumns rounded to a whole number (limited only by the subcolumns not taken by convection), none of them is a "
  "convective subcolumn unless both phases are overcast, and liquid and ice overlap maximally within the level. Cloud continues "
  "the cloud of the level right above in as many subcolumns as possible, while layers separated by clear air are placed at random; "
  "among equally eligible subcolumns the choice is random and, without convection, none is preferred. The result obeys "
  "this identically for serial, parallel and chunked processing, a previously set subcolumn count is honoured, and input fields are never modified.",
  quant="All fraction profiles, convective shares, subcolumn counts, thresholds, logic choices, random seeds and processing modes.",
  why="The tests use uniform 0/0.5/1 fractions; the branches for unequal overlying and underlying fractions never run there.",
  mech=[("stratiform allocation", SUB + ":set_stratiform_sub_col_frac")],
  tech="generated fraction profiles against overlap/counting predicates; hypergeometric test of random placement",
  note="Validity predicates (counts, exclusion, nesting, maximal continuation) on every cell plus a 6-sigma randomness test.")

P(id="C03", title="Precipitation fills its fraction, under precipitation first, then in cloud",
  statement="Below the model's top level, the number of subcolumns holding a precipitation class is its fraction times the number "
  "of subcolumns rounded to a whole number, and the classes of one level overlap maximally. Each class is placed in as many "
  "subcolumns as possible beneath precipitation of the level right above, then in as many cloudy subcolumns as possible, and only "
  "then in clear ones; among equally eligible subcolumns the choice is random and, without convection, none is preferred. With a "
  "single subcolumn a cell is flagged exactly where the mixing ratio exceeds the truncation threshold.",
  quant="All precipitation classes and class lists, convective or stratiform, fractions, cloud masks, subcolumn counts, logic "
  "choices and processing modes.",
  why="Tests only use fractions equal to the cloud fraction at three values, so precedence between precipitation and cloud never matters.",
  mech=[("precipitation allocation", SUB + ":set_precip_sub_col_frac")],
  tech="generated fraction profiles against counting, nesting and precedence predicates",
  note="Validity predicates on every cell of every generated model, using the real cloud allocation as input.")

P(id="C04", title="Mixing ratio and number are conserved when spread over subcolumns",
  statement="For every class and cell, subcolumns flagged as holding the class carry the in-cloud mean mixing ratio and number "
  "(grid mean divided by the fraction), all other subcolumns carry exactly zero, and nothing is negative or non-finite. When "
  "sub-grid variability of cloud water is requested the flagged subcolumns carry gamma-distributed values with the given (or "
  "dataset) relative variance whose sum is still the in-cloud mean times their number. This holds equally for serial, parallel "
  "and chunked processing and for a single subcolumn.",
  quant="All classes, mixing ratios (zero included), numbers, fractions, relative variances, logic choices, seeds and processing modes.",
  why="Tests check one profile with constant fraction, one time step (so chunking is never split) and never a cell with cloud but no condensate.",
  mech=[("q and N distribution", SUB + ":set_q_n")],
  tech="generated models against an exact conservation oracle; KS test against the gamma law",
  note="Exact sums to 1e-9; the distribution law is bounded by a KS distance of 0.12 on >=1000 pooled values.")

ATT = "emc2/simulator/attenuation.py"
RAD = "emc2/simulator/radar_moments.py"

P(id="C05", title="Radar sensitivity and gaseous attenuation follow the published laws",
  statement="The minimum detectable reflectivity grows with the square of height from the instrument's value at the reference "
  "range, and the gaseous attenuation in dB/km is that of Ulaby, Moore and Fung (1981): water vapour lines from absolute humidity "
  "and oxygen with its three pressure regimes, both never negative, their sum being the total. The results do not depend on the "
  "units in which height, pressure and temperature are stored. Every stock radar has the frequency, wavelength, dielectric factor "
  "and sensitivity of its band and site, and unknown sites are refused.",
  quant="All pressures, temperatures, humidities, heights, stored units, radar frequencies and reference ranges.",
  why="Tests compare one sounding in one unit against wide tolerances; the line shapes, regimes and units are never separated.",
  mech=[("sensitivity", ATT + ":calc_radar_Ze_min"), ("gaseous attenuation", ATT + ":calc_radar_atm_attenuation")],
  tech="generated soundings, units and frequencies against an independent implementation of the published formulas",
  note="Agreement to 1e-6; cells within 1e-6 hPa of a regime limit are skipped.")

P(id="C06", title="Molecular lidar scattering and transmittance follow Rayleigh theory",
  statement="Refractive index, number density, Rayleigh extinction and backscatter of air follow from pressure, temperature and "
  "wavelength, and the two-way molecular transmittance at a level is exp(-2 OD) with OD the trapezoidal extinction integral from "
  "the lowest level (or from the top level when optical depth is counted from the top). The result does not depend on the units "
  "in which pressure, temperature and height are stored, and input fields are never modified.",
  quant="All soundings, stored units, wavelengths from 0.3 to 2 um, both directions.",
  why="Tests compare one sounding from the surface; the downward direction and unequal layers are never checked.",
  mech=[("molecular backscatter", ATT + ":calc_theory_beta_m")],
  tech="generated soundings against an independent Rayleigh implementation and physical anchors",
  note="Agreement to 1e-6 plus an anchor (cross section at 532 nm, inverse fourth power).")

P(id="C07", title="Empirical radar echoes, attenuation and totals",
  statement="Empirical reflectivity of each class is the published power law of its water content (and temperature and radar band "
  "for ice), totals over classes and cloud kinds are sums of linear reflectivity, and empty cells hold no echo. Attenuated "
  "reflectivity is the total reduced by the two-way gaseous path and the two-way path of all liquid classes, counted from the "
  "surface or from the top as asked. An echo is reported as detected exactly where it exceeds the minimum detectable reflectivity.",
  quant="All soundings, stored units, subcolumn contents, class subsets and orders, radar bands, directions, cloud kinds.",
  why="Tests run one sounding with one class order from the surface and look only at maxima.",
  mech=[("empirical radar", RAD + ":calc_radar_empirical"), ("path attenuation", RAD + ":accumulate_attenuation"),
        ("totals", RAD + ":calc_total_reflectivity")],
  tech="generated subcolumn contents against an independent forward model; metamorphic class additivity",
  note="Agreement to 1e-6 (1e-5 dB).")

P(id="C08", title="Bulk radar echoes equal scattering area times tabulated efficiency",
  statement="With radiation logic the reflectivity and extinction of each class are the total particle area implied by its mixing "
  "ratio and effective radius times the backscatter and extinction efficiency of the right bulk table (scheme family, solid-ice or "
  "radiation ice, liquid by mu and lambda for CESM) at that effective radius. Empty cells hold no echo and never erase the "
  "attenuation of others, the totals, two-way paths and detectability follow as for the empirical scheme, and inputs are untouched.",
  quant="All soundings, units, contents, effective radii inside and outside the tables, families, ice tables, fluffiness, densities, "
  "class orders, directions and cloud kinds.",
  why="Tests look at maxima for one profile with a constant effective radius and never at attenuation or the top level.",
  mech=[("bulk radar", RAD + ":calc_radar_bulk")],
  tech="generated subcolumn contents against an independent bulk scattering model",
  note="Table nodes are compared to 1e-6 for the two-dimensional CESM liquid tables, bounds between nodes.")

LID = "emc2/simulator/lidar_moments.py"
PSD = "emc2/simulator/psd.py"

P(id="C09", title="Microphysics radar moments are integrals over the size distribution",
  statement="With microphysics logic the reflectivity, mean Doppler velocity (downward negative), spectral width and extinction of each "
  "class are its integrals of tabulated single-particle scattering and fall speed (corrected for air density as its scheme asks) over "
  "its size distribution, and the total moments are the reflectivity-weighted ones of all simulated classes whatever their order. "
  "Attenuation and detectability follow from the total path, a repeated calculation changes nothing, and skipping the spectral "
  "width, parallel or chunked processing leave all other results as they are.",
  quant="All soundings, contents, schemes (MG2, Morrison, NSSL fixed and variable density), table families, class lists and orders, "
  "directions, serial, parallel and chunked processing.",
  why="Tests look at maxima for one profile and one class order; totals, widths, NSSL, chunking and repetition are never checked.",
  mech=[("microphysics radar", RAD + ":calc_radar_micro"), ("spectral width", RAD + ":_calc_sigma_d_tot")],
  tech="generated subcolumn contents against independent quadrature over the size distribution; repetition (metamorphic)",
  note="Agreement to 1e-6 in every populated cell.")

P(id="C10", title="Size distributions hold exactly the number and mass of the cell",
  statement="For every class and subcolumn the gamma size distribution used by the microphysics logic holds the cell's number "
  "concentration and, with the class's (fixed or per-cell) density, its condensed water mass; it exists exactly where there is "
  "condensate. Cloud droplets get the Martin et al (1994) dispersion within the given bounds or a fixed one as the model or caller asks, all "
  "other classes are exponential. Fall speeds of the NSSL scheme are positive and grow with size, and unknown schemes are refused.",
  quant="All numbers, mixing ratios, air densities, particle densities, dispersion options and bounds, model kinds and schemes.",
  why="Tests only see the shape through bounds on derived moments of one sounding; mass and number closure are never checked.",
  mech=[("gamma parameters", PSD + ":calc_mu_lambda"), ("scheme dispatch", PSD + ":calc_and_set_psd_params"),
        ("NSSL fall speed", PSD + ":calc_velocity_nssl")],
  tech="generated contents against closed forms and a numerical number/mass round trip",
  note="Closed forms to 1e-9, numeric moments to 2e-3. One known finding (unit of the number in the dispersion fit).")

P(id="C11", title="Predicted-particle-property (P3) ice follows its look-up tables",
  statement="For P3 ice the echo, extinction, fall speed and optical depth of each cell are those of the P3 table interpolated to "
  "the cell's rime fraction, rime density and normalized ice content, scaled by its ice number, for each scattering mode (full, pure "
  "radiation, equal-volume) and the solid-sphere option, in radars and lidars alike. Cells without ice neither echo nor erase other "
  "classes, and a second call, another instrument or ice simulated alone work the same.",
  quant="All rime properties and ice contents within the table, modes, instruments, contents, class subsets, directions, processing modes.",
  why="No test runs P3 at all.",
  mech=[("P3 bulk radar", RAD + ":calc_radar_bulk"), ("P3 micro radar", RAD + ":_set_p3_tiled_arrays"), ("P3 lidar", LID + ":calc_lidar_bulk")],
  tech="generated P3 states against independent trilinear interpolation and quadrature",
  note="Agreement to 1e-6; droplet parameters are placed on table nodes and edges.")

P(id="C12", title="Bulk and empirical lidar signals follow from content and effective radius",
  statement="With radiation logic the backscatter and extinction of each class are the total particle area implied by its mixing ratio "
  "and effective radius times the tabulated efficiency; empirically they follow the published extinction and lidar-ratio relations. "
  "Optical depth is the path integral from the surface or the top as asked, totals over classes and cloud kinds are sums, and the "
  "attenuated backscatter is (particles plus molecules) times the two-way transmittance with the given multiple-scattering factor.",
  quant="All soundings, units, contents, effective radii, families, ice tables, fluffiness, densities, class lists, directions, "
  "multiple-scattering factors, cloud kinds.",
  why="Tests look at maxima for one profile; the direction, top level, totals and multiple scattering are never checked.",
  mech=[("bulk lidar", LID + ":calc_lidar_bulk"), ("empirical lidar", LID + ":calc_lidar_empirical"),
        ("optical depth", LID + ":accumulate_OD"), ("totals", LID + ":calc_total_alpha_beta")],
  tech="generated subcolumn contents against an independent lidar forward model",
  note="Agreement to 1e-6 in every cell.")

P(id="C13", title="Microphysics lidar signals are integrals over the size distribution",
  statement="With microphysics logic the backscatter and extinction of each class are the integrals of tabulated single-particle "
  "scattering over its size distribution, with optical depth, totals and attenuated backscatter following from them. A repeated "
  "calculation changes nothing, and parallel or chunked processing gives the same result.",
  quant="All soundings, contents, schemes, densities, families, class lists and orders, directions, processing modes.",
  why="Tests look at maxima for one profile; sums, order, repetition and chunking are never checked.",
  mech=[("microphysics lidar", LID + ":calc_lidar_micro"), ("integrals", LID + ":_calc_strat_lidar_properties")],
  tech="generated subcolumn contents against independent quadrature over the size distribution; repetition (metamorphic)",
  note="Agreement to 1e-6 in every populated cell.")

P(id="C14", title="Depolarisation is the backscatter-weighted mean; extinct levels are flagged",
  statement="The linear depolarisation ratio of a subcolumn cell is the backscatter-weighted mean of the ratios of the classes in it "
  "(model defaults or the caller's) and undefined in clear cells, for each cloud kind and in total. The extinction mask is 2 exactly "
  "where the optical depth exceeds the threshold, 1 at the last level before it in the beam's direction and 0 elsewhere.",
  quant="All backscatter fields, optical depth profiles and thresholds, ratios with or without units, class subsets, directions.",
  why="Tests check one value range of one profile from the surface.",
  mech=[("depolarisation and extinction", LID + ":calc_LDR_and_ext")],
  tech="generated datasets against the defining weighted mean and threshold",
  note="Agreement to 1e-9, mask exact.")

CLS = "emc2/simulator/classification.py"

P(id="C15", title="Phase and detection masks follow their thresholds",
  statement="The lidar phase mask of a subcolumn cell is the last listed class whose backscatter threshold, interpolated in log scale to "
  "the cell's depolarisation ratio, is reached, and empty where nothing is, or (on request) where the signal is extinct; the radar-"
  "sounding mask is precipitation, cloud or both according to detectable echo and liquid cloud within the height range. Masks are made "
  "per cloud kind and in total, empty cells are 0 or undefined as asked, unsuitable instruments are refused and inputs stay untouched.",
  quant="All backscatter, depolarisation, optical depth, reflectivity and cloud fields, thresholds, options and cloud kinds.",
  why="Tests run one profile and check a few counts of the stock thresholds.",
  mech=[("lidar phase", CLS + ":lidar_classify_phase"), ("radar sounding", CLS + ":radar_classify_phase")],
  tech="generated signal fields against an independent classifier",
  note="Exact masks; cells within 1e-9 of a threshold are skipped.")

P(id="C16", title="COSP emulation follows Cesana and Chepfer (2013)",
  statement="The attenuated total and cross-polarised backscatter, scattering ratio and phase mask follow the published relations for "
  "given multiple scattering: cloud where the scattering ratio exceeds its threshold, liquid or ice by the discrimination curve, liquid "
  "above 273.15 K, ice below 233.15 K, undefined behind (in the beam's direction) the first layer exceeding the saturation threshold. "
  "It holds for each cloud kind and in total, honours class subsets and the precipitation switch, and does not depend on stored units.",
  quant="All backscatter, optical depth, temperature (K or Celsius) and molecular profiles, thresholds, curves, directions, class subsets.",
  why="Tests check a few counts of one profile.",
  mech=[("COSP emulation", CLS + ":lidar_emulate_cosp_phase")],
  tech="generated signal fields against an independent emulator",
  note="Fields to 1e-8, masks exact except cells within 1e-9 of a threshold.")

P(id="C17", title="Phase ratios are the defining ratios of counts and masses",
  statement="The frequency phase ratio of a grid cell is the number of subcolumns in the asked classes over the number in all (or the given) "
  "hydrometeor classes, undefined where there are none. The subcolumn mass ratio is liquid over total condensate in masked subcolumns, "
  "per subcolumn and summed, over all cloud kinds, and the model ratio is that of the stratiform mixing ratios, for the asked classes.",
  quant="All masks (empty cells 0 or undefined), class choices, subcolumn and model mixing ratios, class subsets, cloud kinds.",
  why="Tests check one ratio of one profile for fully liquid or ice layers.",
  mech=[("phase ratio", CLS + ":calculate_phase_ratio")],
  tech="generated masks and contents against the defining ratios",
  note="Agreement to 1e-9.")

MAIN = "emc2/simulator/main.py"

P(id="C18", title="A whole simulation equals its stages, independent of earlier calls",
  statement="A whole simulation call gives exactly what its documented stages give when called one by one with the same options (logic, "
  "direction, multiple scattering, extinction limit, reference range, class list, ice tables, classification, finalization), and generating "
  "subcolumns first and simulating later equals doing both at once. Results of a call do not depend on instruments or options simulated "
  "earlier on the same subcolumns, on other time columns or on the order of columns and subcolumns, and the call changes no input field, "
  "model setting or instrument table. Outputs are labelled with the unit of their quantity and their own class and cloud type.",
  quant="All models, subcolumn contents, instruments, options, call sequences, column selections and orders, serial or parallel.",
  why="Tests run one call per model; no test reuses a model, reorders columns or compares with the stages.",
  mech=[("whole simulation", MAIN + ":make_simulated_data")],
  tech="generated call histories against stage composition; metamorphic relations over columns, subcolumns and call order",
  note="Fields equal to 1e-9 (1e-6 under column selection, where interpolation tables are rebuilt).")

MOD = "emc2/core/model.py"

P(id="C19", title="Saved subcolumns load back unchanged and continue the simulation",
  statement="Writing a model's subcolumn fields to a file and loading them into a model of the same columns gives the same fields, "
  "dimensions, attributes and subcolumn count, and simulating on from there gives what simulating on from the original gives, whatever later "
  "happens to the file. Removing the fields of one cloud kind removes exactly those, and finalizing turns exactly the zeros of "
  "subcolumn output fields (and of further fields asked for) into undefined cells.",
  quant="All models, subcolumn contents, instruments and options, later calls, overwritten or deleted files, bare or full target models.",
  why="Tests never save and load subcolumns nor simulate on from loaded ones.",
  mech=[("save", MOD + ":subcolumns_to_netcdf"), ("load", MOD + ":load_subcolumns_from_netcdf"), ("remove", MOD + ":remove_subcol_fields")],
  tech="generated save, load, overwrite and simulate histories with round-trip oracle",
  note="Values compared exactly after loading and to 1e-9 after simulating on.")

P(id="C20", title="Regional output is processed column by column on its own grid",
  statement="Stacking a regional dataset into columns and unstacking it returns every field to its original dimensions, order, coordinates "
  "and values. Every stacked column holds its own grid cell's profile, simulating the stacked columns gives each cell what simulating it "
  "alone would, and fields added to the columns return to their own cells when unstacked.",
  quant="All grids (0-3 horizontal or time dimensions, own names and orders), variables with fewer dimensions, single-cell dimensions, output names.",
  why="Tests stack one dataset and compare two fields.",
  mech=[("stack", MOD + ":check_and_stack_time_lat_lon"), ("unstack", MOD + ":unstack_time_lat_lon"),
        ("permute", MOD + ":permute_dims_for_processing")],
  tech="generated regional grids with round-trip and per-cell differential oracle",
  note="Values compared exactly (1e-6 for simulated fields).")

P(id="C21", title="Time, region and sub-domain selection keeps exactly what was asked",
  statement="A time range keeps exactly the times from its start up to but not including its end, and is ignored when it holds none. A "
  "region keeps a contiguous block of whole columns covering the asked box and no columns clearly outside it, every field cut alike. "
  "Sub-domain fields with suffixed names are merged under their plain names, each column once, in one common order for all fields.",
  quant="All time axes (unsorted, named differently, alternative coordinate), ranges, boxes, distorted grids, suffixes, field orders.",
  why="Tests load one file with one range and no region or sub-domain.",
  mech=[("time range", MOD + ":_crop_time_range"), ("latitude and longitude", MOD + ":_crop_bounding_box"),
        ("x and y", MOD + ":_crop_bounding_box_x_y"), ("sub-domains", MOD + ":remove_appended_str")],
  tech="generated grids and selections against direct selection",
  note="On curvilinear grids the box edge is judged to within a cell.")

P(id="C22", title="E3SM and CESM files are read into the documented profiles",
  statement="Loading E3SM (including P3) or CESM output gives, per time and column and from the lowest level up, pressure in hPa from the "
  "hybrid coefficients and surface pressure, air density by the gas law, numbers of the simulated classes per cm3 of air, effective radii in "
  "microns (undefined where the file has none), and every other profile (temperature, vapour, height, mixing ratios, fractions, cloud droplet "
  "parameters) as stored. P3 ice is described by its own in-cloud number, rime fraction, rime density and mean particle mass, limited to the "
  "given table, and the gamma parameters the table has for them. Layout, calendar, precision and time range change nothing else.",
  quant="All file contents, precisions, layouts (single column, region, cube-sphere sub-domains, curtains), calendars, loader options.",
  why="Tests load one packaged column per model and check nothing but that it runs.",
  mech=[("E3SM loader", MOD + ":E3SMv1"), ("CESM loader", MOD + ":CESM2"), ("air density", MOD + ":_calc_air_density")],
  tech="generated files written to disk and read back, against profiles computed independently from their contents",
  note="Agreement to 1e-6 (1e-4 for single precision files).")

P(id="C23", title="ModelE, DHARMA, WRF and processed files are read into the documented profiles",
  statement="Loading ModelE, DHARMA or WRF output gives, per time, level and column, pressure, height, temperature, humidity, air density, "
  "cloud fractions, mixing ratios, numbers and effective radii in the documented units, single columns and regions alike. A time range keeps "
  "exactly its times, a sub-domain of DHARMA exactly its columns, and a file already holding subcolumn output loads with exactly the fields saved.",
  quant="All file contents, layouts, loader options, microphysics schemes, dimension and time conventions, integer or real fields.",
  why="Tests load one packaged column of two models; WRF and regions are never loaded.",
  mech=[("ModelE loader", MOD + ":ModelE"), ("WRF loader", MOD + ":WRF"), ("DHARMA loader", MOD + ":DHARMA")],
  tech="generated files written to disk and read back, against profiles computed independently from their contents",
  note="WRF variables come from stand-ins for wrf-python, which is not installed here; agreement to 1e-6.")

INS = "emc2/core/instruments.py"

P(id="C24", title="Look-up tables and instruments hold consistent documented quantities",
  statement="Tables read from files are converted to the documented units row by row and labelled so, and the tables every instrument loads are those packaged for its "
  "own wavelength and the chosen options (supercooled or warm liquid, DHARMA precipitating ice, site). Rows agree with Mie theory for their own refractive "
  "index, scattering is at most extinction, areas and volumes match their equivalent spheres, size axes ascend, frequency and wavelength agree, every "
  "stock lidar has the extinction limit, viewing direction, multiple scattering and phase thresholds of its kind, and observations are attached as stored.",
  quant="All rows of all packaged tables of all instruments and options, generated files of each format, frequencies and wavelengths.",
  why="Tests build a few instruments and never look at a table row.",
  mech=[("instrument tables", "emc2/core/instrument.py:load_instrument_scat_files"), ("table files", "emc2/io/load_mie_file.py:load_mie_file"),
        ("instruments", INS + ":KAZR")],
  tech="sampled table rows and generated files against independent Mie theory, unit and consistency oracles",
  note="Mie agreement within the tables' own averaging and rounding; one table is a recorded finding.")

MIE = "emc2/scattering/mie_scattering.py"

P(id="C25", title="Single-particle scattering is that of each requested particle",
  statement="The scattering properties computed for a list of spheres of liquid or ice are, for each requested diameter in the order given, the Mie "
  "solution of that sphere (efficiencies, cross sections, size parameter) with the refractive index at the wavelength and temperature. Water has the permittivity of the published model at any wavelength and temperature, ice of reduced "
  "density that of an ice-air mixture, and drop shape follows the published axis ratio. Results are labelled with their own names and units.",
  quant="All lists of diameters (any order or spacing), wavelengths, temperatures, pressures, densities.",
  why="Tests compare one evenly spaced list with stored numbers.",
  mech=[("liquid", MIE + ":scat_properties_water"), ("ice", MIE + ":scat_properties_ice"), ("drop shape", "emc2/scattering/mie_scattering.py:brandes")],
  tech="generated particle lists against an independent Mie series; permutation and subset relations",
  note="Agreement to 1e-6 for size parameters from 0.05.")

AGG = "emc2/statistics_LLNL/statistical_aggregation.py"

P(id="C26", title="Signals on the common vertical grid are means over the layers they overlap",
  statement="On the common vertical grid each bin holds the mean of the model layers it overlaps weighted by the overlap depth, bins below the surface "
  "or without any model layer are undefined, and so is a bin with an undefined or below-ground layer. The scattering ratio is total over "
  "molecular signal of the same bin and reflectivity the mean of the same bin, each for its own subcolumn, time and column, and layers enclose their levels.",
  quant="All level spacings, target grids (finer, coarser, beyond the ends), signals, undefined cells, subcolumns, times, columns.",
  why="No test runs the statistics package.",
  mech=[("regridding", AGG + ":COSP_CHANGE_VERTICAL_GRID"), ("scattering ratio", AGG + ":calculate_SR"), ("reflectivity", AGG + ":get_regridded_ze_att_tot")],
  tech="generated grids and signals against a direct overlap-weighted mean; identity and splitting relations",
  note="Agreement to 1e-9 relative.")

P(id="C27", title="Cloud fraction and CFAD statistics count what they claim and are saved intact",
  statement="The lidar cloud fraction of a bin is the share of subcolumns with scattering ratio above the cloud threshold among those the lidar "
  "reaches, undefined where it reaches none. A CFAD cell is the share of all subcolumns and times whose signal falls in its bin, and the saved files hold "
  "the statistics, their bin coordinates and the model output as computed.",
  quant="All signals (undefined, below ground, on bin edges), bin edges, grid sizes, subcolumns, times, columns.",
  why="No test runs the statistics package.",
  mech=[("cloud fraction", AGG + ":calculate_lidar_CF"), ("frequencies", AGG + ":get_cfaddBZ"), ("saving", "emc2/statistics_LLNL/statistical_output.py:save_cfads_to_nc")],
  tech="generated signals against direct counting; save and load round trip",
  note="Counts exact; fractions to 1e-12.")

DIS = "emc2/plotting/subcol_display.py"

P(id="C28", title="Displays show exactly the data asked for and change nothing",
  statement="A curtain, profile or observation plot shows exactly the values of the asked variable, subcolumn, time or grid cell at their own times and "
  "levels, hiding (or hatching) undefined or masked cells only — a mask of another shape is ignored —, labelled with its quantity, class and unit, within the asked colour limits on linear or logarithmic scale. A mean profile shows the arithmetic or geometric mean over subcolumns and the asked "
  "times of the defined unmasked cells (reflectivity in linear units), shaded by one standard deviation of the same kind, inside the axis limits unless others are asked, with its quantity and unit on the axis; limits set afterwards are those of the asked panel and axis. Drawing hands back the axes drawn on and changes neither "
  "the model, the observations nor arrays passed in.",
  quant="All outputs (undefined cells, subcolumns, times, levels), variables, masks, time windows, coordinates, scales, colour limits.",
  why="Tests compare few images by eye or only check that plotting runs.",
  mech=[("curtain", DIS + ":plot_subcolumn_timeseries"), ("profile", DIS + ":plot_single_profile"), ("mean profile", DIS + ":plot_subcolumn_mean_profile"),
        ("observations", DIS + ":plot_instrument_timeseries")],
  tech="generated outputs and options drawn off-screen; drawn artists read back and compared with the data",
  note="Values shown compared to 1e-9.")

PLT = "emc2/statistics_LLNL/statistical_plots.py"

P(id="C29", title="Statistics plots show every subcolumn and frequency in its own place",
  statement="The plots of all subcolumns show, for the asked column, each subcolumn's own value at its own level height, the subcolumns of a time side by side in "
  "order up to that time, hiding undefined values and absent mixing ratio only. Frequency plots show each frequency at its own bin and "
  "height, edges, quantities, classes and units are named as they are, and colour limits, colour maps and further drawing options are those asked for, else the documented ones. Drawing changes neither the model nor the arrays passed in.",
  quant="All outputs (subcolumns, times, levels, columns, undefined values), time spacings, grids, bin edges, colour limits and options.",
  why="Tests draw three of the plots once and compare nothing.",
  mech=[("radar and lidar signals", PLT + ":plot_every_subcolumn_timeseries_radarlidarsignal"), ("scattering ratio", PLT + ":plot_every_subcolumn_timeseries_SR"),
        ("mixing ratios", PLT + ":plot_every_subcolumn_timeseries_mixingratio"), ("frequencies", PLT + ":plot_radar_CFAD")],
  tech="generated outputs drawn off-screen; drawn meshes read back and compared with the data",
  note="Values and positions compared to 1e-9 (times to 1e-6 days).")

P(id="C30", title="Output of any supported model simulates as the profiles it documents",
  statement="Loading a file of a supported model (ModelE, E3SM, CESM, DHARMA, WRF) and simulating it with any instrument and logic gives the subcolumns, "
  "signals and totals of the profiles the file documents (mixing ratios, numbers, fractions and effective radii of every class, pressure, temperature, "
  "height and vapour) with the class parameters of that model's scheme (densities, fall speeds, lidar and depolarisation ratios). The names, order and "
  "number of dimensions, the order of levels and the precision of the file make no difference.",
  quant="All contents, layouts (column, region), precisions, loader options, instruments, logics and ice tables.",
  why="Tests simulate three fixed files and compare a few numbers; no test relates one model to another.",
  mech=[("readers and their class parameters", MOD + ":ModelE/E3SMv1/E3SMv3/CESM2/DHARMA/WRF"), ("whole simulation", "emc2/simulator/main.py:make_simulated_data")],
  tech="generated files of every model, differential against a generic model holding the documented profiles",
  note="Effective radii of WRF bulk schemes are not in its files (radiation logic not run there). Single precision to 1e-2, else 1e-6.")

P(id="C31", title="Requests that cannot be fulfilled are refused and change nothing",
  statement="A request whose condition is not met raises an error for its caller (KeyError, ValueError or RuntimeError) and leaves the model's fields, number of "
  "subcolumns and classes as they were: a subcolumn stage before the stages it builds on, or with another number of subcolumns than convection and precipitation "
  "were given; radar (lidar) moments and classes for an instrument of another kind; COSP classes for another instrument than the HSRL; moments without "
  "subcolumns (an unknown radiation scheme family stores no signal); unstacking a model never stacked; a model without classes. No instrument is built for an unknown site or "
  "without wavelength and frequency, and no file is loaded for a time range that is not datetime64. The same requests are accepted once their condition is met.",
  quant="All models, instruments, logics, classes, numbers of subcolumns and orders of the stages.",
  why="Tests call every stage in order with fitting instruments; a silent result of a request out of order is plausible and wrong.",
  mech=[("order of the stages", SUB + ":set_*"), ("instrument class and scheme", "emc2/simulator/radar_moments.py, lidar_moments.py, classification.py"),
        ("time ranges", MOD + ":ModelE/E3SMv1/DHARMA"), ("sites", "emc2/core/instruments.py:KAZR/WACR")],
  tech="generated models and requests, compared before and after the refusal",
  note="A request refused late may have stored clear-air helper fields (unknown radiation scheme). Not demanded: a number of subcolumns the stratiform stage ignores.")

