T_RUN = 'runtime monitoring: generated workloads through the real entry points, every output map checked online against a reference monitor'

prop('C02', 'Averages over a period weigh every stored hour exactly as documented',
     'For an average over periods of A hours, each output map is labelled with the last hour of its period and holds, in every cell, the mean over the hours of '
     'that period where each hour counts the next stored step; with half weights it is the mean of the stored steps with the first and last step counting half. '
     'A missing or zero start behaves like a start equal to A, one map is produced per complete period up to the end, and a cell is missing exactly when one of the '
     'steps used in its period is missing there.',
     ['inputs', 'configurations'],
     'every set of stored steps (regular or not, with or without step 0, in any file order), period length, start, end, half-weight option, pattern of missing cells, '
     'GRIB edition, output format and interpolation table on a target; ends are stored steps, starts are absent, zero or at least one period',
     'The tests average one file with one period and only look at the key of the result; the values for other step patterns, starts, ends and missing data are never compared.',
     ['main/manipulation/aggregator.py', 'main/controller.py', 'main/readers/grib.py'],
     [('period loop and hour weights', S + 'main/manipulation/aggregator.py:_average'), ('selection of the steps read', S + 'main/manipulation/aggregator.py:get_real_start_end_steps')],
     T_RUN, 'random step patterns, periods, starts, ends, missing data; whole output files compared with an hour-by-hour reference; not exhaustive')

prop('C03', 'Accumulations equal stored end minus stored start, scaled to the unit time',
     'For an accumulation over periods of A hours, each output map equals (value at the end of the period minus value at its beginning) times unit time divided by A, '
     'where steps that are not stored are linearly interpolated between their stored neighbours. Step 0 counts as zero when it is not stored or when a zero start is '
     'requested, and a cell is missing exactly when one of the stored steps used for it is missing there.',
     ['inputs', 'configurations'],
     'every set of stored steps finer or coarser than the period, with or without step 0, unit time, zero-start option, start, end, missing cells and output format',
     'One test accumulates one file; steps that must be interpolated, zero start, absent step 0 and missing cells are not compared with anything.',
     ['main/manipulation/aggregator.py', 'main/controller.py'],
     [('accumulation loop', S + 'main/manipulation/aggregator.py:_accumulation'), ('unit time default', S + 'main/context.py:_check_exec_params')],
     T_RUN, 'random step patterns and options; whole output files compared with a reference computed from an independent decode')

prop('C04', 'Instantaneous output holds the stored value of each step or the next one',
     'Without aggregation every selected stored step becomes exactly one output map with that step\'s values; with instantaneous aggregation there is one map every A hours '
     'up to the end, holding the stored step of that hour or, if there is none, the next stored one (zero for an hour 0 that is not stored). Missing cells stay missing '
     'and nothing else is missing.',
     ['inputs', 'configurations'],
     'every set of stored steps in any file order, aggregation step, start, end, missing cells, GRIB edition and output format',
     'The test compares the first and last key of one regular series; no values and no series with gaps are looked at.',
     ['main/manipulation/aggregator.py', 'main/writers/__init__.py', 'main/readers/grib.py'],
     [('instantaneous loop', S + 'main/manipulation/aggregator.py:_instantaneous'), ('message selection', S + 'main/readers/grib.py:select_messages')],
     T_RUN, 'random step patterns and options; whole output files compared with a reference computed from an independent decode')

prop('C01', 'Only the requested messages decide the result',
     'The output depends only on the messages that match the requested shortName, level, date, time, ensemble member and step window, whether these selectors are given on the '
     'command line or in the execution file. Any other messages stored in the same GRIB file, on other grids and in any order, leave the output unchanged, and every requested '
     'message is used.',
     ['inputs', 'configurations'],
     'every mixture of messages differing in shortName, level, level type, date, time, member, grid and order, and every combination of selectors; messages of the same shortName '
     'that differ in a key are mixed in only when that key is selected',
     'The tests read files that contain just what they ask for; the effect of extra messages is visible only by comparing runs over pairs of files.',
     ['main/readers/grib.py', 'main/context.py', 'main/controller.py'],
     [('message matching', S + 'main/readers/grib.py:_find'), ('selectors', S + 'main/context.py:create_select_cmd_for_reader')],
     T_RUN, 'random mixtures; the output over the mixed file is compared with the output over a file with only the requested messages and with a decode reference')

prop('C05', 'Unit conversion and cut-off of negative values follow the configuration',
     'With @applyConversion the formula of the conversion with that id in the parameters configuration is applied to every stored value before any aggregation, and with '
     '@cutOffNegative true the values of the finished maps that are below zero become exactly zero; all other values, and all missing cells, stay as they are. Without a conversion the '
     'values are those of the file. The unit of the conversion is written to the netCDF variable.',
     ['inputs', 'configurations'],
     'every formula in x, shipped or user defined, single or in a list of conversions, cut-off setting, manipulation, sign pattern, missing cells and format; stored values are '
     'different from the missing value number of the message',
     'The tests evaluate a few formulas on small arrays; the order of conversion, aggregation and cut-off, and masks, are not compared through a run.',
     ['main/manipulation/conversion.py', 'main/controller.py', 'main/config.py', 'main/context.py'],
     [('formula evaluation', S + 'main/manipulation/conversion.py:convert'), ('cut-off', S + 'main/manipulation/conversion.py:_cut_off'), ('choice of the conversion', S + 'main/config.py:get_conversion')],
     T_RUN, 'shipped and random user formulas; whole outputs compared with a reference')

prop('C07', 'Nearest neighbour maps take the value of the closest grid point',
     'With mode nearest or grib_nearest every output cell inside the source grid holds the value stored at the grid point closest to the cell on the sphere (missing if that point '
     'is missing), whatever the longitude convention, grid type, date line, pole or order of the cells. With nearest, a cell farther from every grid point than the spacing of the grid '
     '(its largest nearest neighbour distance plus 4/Nj of it) is missing. Cells outside the clone map are missing.',
     ['inputs', 'configurations'],
     'every source geometry (regional, global, polar, crossing the date line or Greenwich, southern, rotated, Gaussian regular or reduced), every target map in PCRaster or netCDF '
     'form with coordinates in any convention (for rotated grids also coordinates of the rotated grid, @rotated_target), every pattern of missing source cells',
     'The tests compare one global file on one target with a stored result within a tolerance; closeness itself is never checked.',
     ['main/interpolation/scipy_interpolation_lib.py', 'main/interpolation/__init__.py'],
     [('tree search and limit', S + 'main/interpolation/scipy_interpolation_lib.py:_build_nn'), ('ecCodes search', S + 'main/interpolation/grib_interpolation_lib.py')],
     T_RUN, 'random geometries; every cell compared with a brute force search over all grid points in double precision; ties within map precision accept either')

prop('C08', 'Inverse distance maps are the documented weighted means',
     'With mode invdist every output cell is the mean of the four closest grid points weighted by the inverse of the squared distance; with grib_invdist it is the mean of the four grid points '
     'of the grid cell around it weighted by the inverse of the distance. A cell on a grid point has that point\'s value, a cell that uses a missing grid point is missing, and with '
     'invdist a cell beyond the spacing of the grid is missing. Reusing the stored table gives the same maps.',
     ['inputs', 'configurations'],
     'every source geometry, target map and pattern of missing source cells as for nearest',
     'The tests compare one file with a stored result within a loose tolerance; weights, cells on grid points and missing neighbours are not looked at.',
     ['main/interpolation/scipy_interpolation_lib.py', 'main/interpolation/__init__.py'],
     [('weights', S + 'main/interpolation/scipy_interpolation_lib.py:_build_weights_invdist'), ('ecCodes search', S + 'main/interpolation/grib_interpolation_lib.py')],
     T_RUN, 'random geometries; every cell compared with a brute force weighted mean; near ties and grid lines skipped')

prop('C09', 'Angular distance weighting and its CDD variants follow the formulas',
     'With mode adw every output cell is the mean of its eleven closest grid points with the weights of Shepard: the distance function with the radius of the data, squared, times one plus the '
     'directional isolation of the point; a cell on a grid point has its value. With mode cdd the distance function is the exponential of Hofstra or NewEtAl or the two-part one of '
     'MixHofstraShepard with the CDD of the cell and the configured options, and cells with too few points within the CDD are missing. Broadcasting, splits of the target, order of the '
     'options and longitude conventions change nothing.',
     ['inputs', 'configurations'],
     'every source geometry, target, CDD map, option set, number of splits and pattern of distances; cells at a switch of the formulas excepted',
     'The tests compare one global file per mode with a stored result within a tolerance, so neither weights, options, splits nor the missing rule is decided.',
     ['main/interpolation/scipy_interpolation_lib.py', 'main/interpolation/__init__.py'],
     [('Shepard weights', S + 'main/interpolation/scipy_interpolation_lib.py:_build_weights_invdist'), ('splits', S + 'main/interpolation/scipy_interpolation_lib.py:interpolate_split')],
     T_RUN, 'random geometries, CDD maps and options; every cell compared with an independent evaluation of the published formulas, and two variants of each run with each other')

prop('C10', 'Bilinear and triangulation maps use the enclosing grid box or triangle',
     'On regular latitude-longitude grids, regional or global, every output cell inside the grid holds, with mode bilinear or bilinear_delaunay, the bilinear combination of the four corners '
     'of the grid box around it, and with mode triangulation the linear combination of the three corners of a triangle of that box (linear in longitude and Mercator ordinate); across the '
     'date line and the end of the row of a global grid too. On Gaussian and (triangulation) rotated grids the weights are convex and centred on the cell. Cells outside a regional grid '
     'or beyond the spacing limit of it are missing, all cells inside have data.',
     ['inputs', 'configurations'],
     'every regional grid with spacing 0.25 to 2 degrees (for bilinear, boxes with sides in a ratio up to 2), global grids up to 8 degrees, Gaussian grids, every target in any longitude '
     'convention; away from the poles',
     'The tests compare one global field per mode with a stored result within a tolerance; regional grids, the date line and small targets are never interpolated in these modes.',
     ['main/interpolation/scipy_interpolation_lib.py', 'main/interpolation/__init__.py'],
     [('search of the enclosing quadrilateral', S + 'main/interpolation/scipy_interpolation_lib.py:_build_weights_bilinear'),
      ('triangulation', S + 'main/interpolation/scipy_interpolation_lib.py:_build_weights_triangulation')],
     T_RUN, 'random geometries and fields through the command line; every cell compared with an independent bilinear or barycentric value')

prop('C06', 'Missing data stays missing, and only that, in every interpolation mode',
     'With every interpolation mode, a cell of the output is missing when it lies outside the clone map, has no coordinates in the latitude or longitude map, or when a grid point that '
     'contributes to it is missing in the message; every other cell that the mode can compute has a value, and that value is the same combination of grid points for every message and field. '
     'No fill number of the input or of the output ever appears as, or contributes to, data. This holds with and without manipulation, in both output formats and with new and stored tables.',
     ['inputs', 'configurations'],
     'all nine modes, every pattern of missing grid points, missing target coordinates and clone cells, several messages with different patterns, PCRaster and netCDF targets',
     'The tests hold no message with missing points and no map with missing coordinates outside the clone.',
     ['main/interpolation/__init__.py', 'main/interpolation/scipy_interpolation_lib.py', 'main/interpolation/grib_interpolation_lib.py', 'main/writers/netcdf.py', 'main/writers/pcraster.py',
      'main/readers/grib.py'],
     [('mask through the tables', S + 'main/interpolation/__init__.py:_interpolate_scipy_append_mv'), ('missing coordinates', S + 'main/interpolation/grib_interpolation_lib.py'),
      ('clone mask', S + 'main/writers')],
     T_RUN, 'the linear operator of the run is read out with one unit message per grid point, then the missing cells and values of masked messages are compared with it')

prop('C11', 'Interpolation tables are made once, found again and never mixed up',
     'Without -B a run never changes a table folder or the configuration of tables: if the table of its grids and mode is neither in the folder of the run (-N, intertableDir or INTERTABLES) nor in '
     'the global one it exits 1 and writes no map. With -B and no table it adds exactly one file to the folder of the run, complete, under a name no other table has, and one entry to the '
     'configuration of the user; an entry whose file is gone gets its file again under the same name. With a table present nothing is written, and the maps are those of the first run with '
     'that grid, whatever runs, names of input files, folders, output formats, compressed or older table files and entries as earlier versions wrote them came before.',
     ['inputs', 'histories', 'configurations'],
     'every history of runs, deletions and publications of tables over grids, modes and folders',
     'The tests run with tables prepared beforehand, or with -B once per mode; no test runs twice against the same folder or loses a file.',
     ['main/interpolation/__init__.py', 'main/config.py', 'main/context.py'],
     [('search of the table', S + 'main/interpolation/__init__.py:_intertable_filename'), ('saving', S + 'main/interpolation/__init__.py:update_intertable_conf'),
      ('folders', S + 'main/config.py:IntertablesConfiguration')],
     T_RUN, 'random histories over several grids, targets, modes, table folders and input names; files, configuration, exit code and maps compared with a model of the life cycle after each run')

prop('C15', 'PCRaster output is one correctly named and georeferenced map per time',
     'With the PCRaster format a run writes exactly one map per output time, in order of time, named with the prefix and the number fmap, fmap + ext, fmap + 2 ext and so on, padded with zeros to '
     'the eight plus three characters of PCRaster names (a prefix that is too long is cut, so that every map has a name of its own), and touches no other file in the output folder. Every map is a '
     'PCRaster map with the size, georeference and value scale of the clone map, missing where the clone or the data are, and holds in single precision the values of the netCDF output of the '
     'same run. Prefix, number and step of numbers come from the command line or the execution file.',
     ['inputs', 'configurations'],
     'every prefix, first number, number step and number of maps, georeference of the clone, aggregation and pattern of missing data',
     'The tests write at most a few maps and look at their values, never at names after number 9, extensions that pass 999, long prefixes, the georeference or the rest of the folder.',
     ['main/writers/pcr.py', 'main/writers/__init__.py', 'main/context.py'],
     [('name of a map', S + 'main/writers/__init__.py:_name_pcr_map'), ('writing a map', S + 'main/writers/pcr.py:write')],
     T_RUN, 'random options and data; folder listing, georeference and every cell compared with the decoded messages, and with a netCDF twin run')

prop('C16', 'NetCDF output keeps values, missing cells, time and coordinates',
     'The netCDF file of a run holds one variable named like the prefix with dimensions time, lat and lon. Unpacked with its scale factor and offset it has, in the requested format, every value '
     'within half a packing step, whatever of the ten formats; missing data, cells outside the clone and values out of validMin and validMax are stored as the fill value, and nothing else is. '
     'Its time axis, in the requested step units (hours if they cannot be converted), counts from the date and time of the data to the end of each output step, the coordinates are those of the target, and units are '
     'those of the parameter or conversion.',
     ['inputs', 'configurations'],
     'every combination of format, scale factor, offset, valid range and step units whose values fit the format, every time of the data, target kind and pattern of missing data',
     'The tests check two formats with one packing on one message without missing points; valid range, unsigned and long formats, time units and origin are not checked.',
     ['main/writers/netcdf.py', 'main/writers/__init__.py', 'main/readers/netcdf.py', 'main/readers/grib.py'],
     [('packing, mask and axes', S + 'main/writers/netcdf.py:write'), ('date and time', S + '__init__.py:Messages')],
     T_RUN, 'random packings, ranges, units and masks through the command line; file read back and compared with the decoded messages')

prop('C14', 'Height correction applies the formula to parameter, geopotential and altitude',
     'With a correction formula, a gem formula and a dem map, every cell of every output map is the formula of p, gem and dem: p the parameter converted, aggregated and interpolated, gem the gem '
     'formula of the geopotential z interpolated with the same mode and maps, dem the altitude of the cell, and missing if any of the three, or the clone, is. z comes from the input file if '
     'it has one, otherwise from the file configured for the grid of the parameter, looked for in the folder given for the run, the folder of the user and the shared one, in this order; if there is none '
     'the run fails with exit code 1. Corrections of earlier runs in the same process have no influence.',
     ['inputs', 'configurations', 'histories'],
     'every pair of formulas, geopotential and its place, dem map and its missing cells, parameter with or without aggregation and conversion, interpolation mode, output format and run before it',
     'One unit test computes one formula on one file and repeats the same expressions to check it; missing altitudes, configured geopotentials, folders and two corrections in one process are not tested.',
     ['main/manipulation/correction.py', 'main/config.py', 'main/context.py', 'main/writers/__init__.py', 'main/readers/grib.py', 'main/interpolation/latlong.py'],
     [('formula and missing cells', S + 'main/manipulation/correction.py:correct'), ('choice of the geopotential', S + 'main/config.py:GeopotentialsConfiguration.get_filepath')],
     T_RUN, 'random fields, dems, formulas and places of the geopotential; every cell compared with the formula over fields interpolated independently')

prop('C17', 'An execution means the same however its options are written',
     'A run is determined by the values of its options, not by how they are given: a value on the command line (-s -e -T -D -m -f -x -F -n -S -O -vm -vM -vf -U -N -G) wins over the one in the '
     'execution file, always, and has the same effect as if written there; an option that is not given has its documented default, as if written explicitly. Variables of the .conf files of the '
     'user are replaced wherever paths of the execution file use them (maps of the target, correction and folders, other options of these), and definitions of parameters in the folder of the user win '
     'over the global ones with the same name and leave the others as they are. A variable or parameter that is not defined makes the run fail with exit code 1.',
     ['inputs', 'configurations'],
     'every option, value and pair of conflicting values, set of variables with similar names, and user definitions over global ones',
     'Unit tests check four options of one command; precedence between the sources, defaults and substitution of variables are not tested on what a run writes.',
     ['main/context.py', 'main/config.py', '__init__.py'],
     [('merge of command line and execution file', S + 'main/context.py:ExecutionContext'), ('variables and user configuration', S + 'main/config.py:UserConfiguration')],
     T_RUN, 'each random execution is run written in several ways with decoy values where they must not count; all outputs compared byte by byte')

prop('C18', 'Exit codes tell what happened; inputs and other files are left alone',
     'A run exits with 0 exactly if all its maps are written, or if no message of the input matches the selection (then it writes nothing). Any mistake (unknown or missing parameter, '
     'conversion, mode, format, aggregation, map, variable or file, text where a number or a map is due, tstart after tend, incomplete correction, maps of different sizes, wrong arguments, damaged '
     'execution, configuration or GRIB file) and any failed write (disk full) gives a non-zero exit code; mistakes leave no map behind. In all cases GRIB, maps, execution file, configuration and '
     'all other files of the user keep content, time and identity: a run writes its maps in the output folder, with -B its new table and the entry of it, and nothing else, wherever it is.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every valid execution, every mistake in each option, attribute or file, and every point at which the disk gets full',
     'The tests expect an exception for a handful of wrong options and never look at exit codes, at files that are left behind, at inputs after a run, or at failing writes.',
     ['main/__init__.py', 'main/context.py', 'main/controller.py', 'main/writers/pcr.py', 'main/writers/netcdf.py', 'exceptions.py'],
     [('exit codes', S + 'main/__init__.py:execute'), ('checks of options', S + 'main/context.py:_check_exec_params'), ('writing', S + 'main/writers/pcr.py:write')],
     T_RUN, 'random executions, fifty kinds of mistakes and limited file sizes; content, time and inode of every file of the scratch world compared before and after each run')

prop('C22', 'Registering, checking and downloading data changes exactly what it says',
     '-g (and GeopotentialsConfiguration.add) copies the file unchanged to the GEOPOTENTIALS folder and adds one entry with the identifier of its grid, which corrected runs then use; a grid that is '
     'configured already (by the user or for all), the file name of another entry, a file without geopotential or a folder that is not defined or missing give exit code 1 and change nothing. -K '
     'removes exactly the tables without file from intertables.json of the user. -W fetches exactly the remote files that the folder of the user does not have, unchanged, keeps the others, and '
     'whatever interrupts it no partial file is taken for complete by the next one, which fetches the rest.',
     ['histories', 'inputs', 'fault_sequences'],
     'every sequence of commands, state of folders and registry, content of the files and the server, and interruption of a download',
     'No test runs -W or -K; one test adds and removes one geopotential.',
     ['main/config.py', 'main/__init__.py', 'main/readers/grib.py'],
     [('adding a geopotential', S + 'main/config.py:GeopotentialsConfiguration.add'), ('download', S + 'main/config.py:Configuration.download_data'), ('check', S + 'main/config.py:Configuration.check_conf')],
     T_RUN, 'random histories with a stand-in FTP server that can fail; all files of the user compared with a model after each command')

prop('C24', 'With two spatial resolutions each map comes from its own grid and period',
     'When a forecast changes its grid (a second file with -I, or both grids in one file), maps up to the step where the second grid starts are made (aggregated or not) from the messages of the first grid and '
     'later maps from the messages of the second one, each interpolated, converted and corrected with the table and geopotential of its own grid. No map is lost, repeated or mixed, '
     'whatever the order of the messages in the files, the first step of the second grid, the start and the end (given or not).',
     ['inputs', 'configurations'],
     'every pair of grids (finer or coarser), aggregation, steps of both parts (the second one starts with an overlapping message at a multiple of the period), start, end, conversion, correction, '
     'missing data, order of messages, one or two files and output format',
     'The tests read one file with two resolutions and compare the number of messages; the maps around the change of grid are never compared.',
     ['main/controller.py', 'main/readers/grib.py', '__init__.py', 'main/writers/__init__.py'],
     [('second resolution manipulation', S + 'main/controller.py:second_res_manipulation'), ('separation of messages', S + 'main/readers/grib.py:select_messages'),
      ('change of grid while writing', S + 'main/writers/__init__.py:write_maps')],
     T_RUN, 'random pairs of grids and step patterns; each map compared with a reference on the messages of its own grid')
prop('C13', 'Command line and Python API, PCRaster and netCDF give the same maps',
     'The same execution (inputs, selectors, conversion, aggregation, interpolation, correction) written as PCRaster maps, written as a netCDF file and returned by the Python API (ApiContext/Pyg2pApi) '
     'gives the same maps: same number, same order and steps, same values within single precision for PCRaster, missing in the same cells (nodata of the clone in PCRaster and API arrays), whether '
     'interpolation tables are created by that run or read. Selectors mean the same at the top level and under Parameter.',
     ['inputs', 'configurations'],
     'every execution file, input (members, dates, levels, accumulated, two resolutions, missing data), target maps (PCRaster or netCDF), interpolation mode, order of the three runs and origin of the table',
     'Tests of the API compare stored reference maps of one dataset, which is not available to the reliable tests; no test compares two ways of running an execution.',
     ['main/api.py', 'main/context.py', 'main/controller.py', 'main/writers/__init__.py', 'main/writers/pcr.py', 'main/writers/netcdf.py'],
     [('API context', S + 'main/api.py:_define_exec_params'), ('API execution', S + 'main/api.py:execute'), ('writers', S + 'main/writers/__init__.py:write_maps')],
     T_RUN, 'random whole executions, each run three ways; all maps compared')
prop('C25', 'Commands of the Python API run like the command line',
     'A command made with api.command(), from a string of arguments (with or without the name of the program, short or long options, {variables}, quoted values), with the with_... methods, or both, '
     'and executed with run() or run_command(), does exactly what pyg2p does on the command line with the same arguments: the same output files with the same content and the same result, '
     'also for flags, negative values, values with spaces or an equal sign, values replaced later, and mistakes.',
     ['inputs', 'configurations'],
     'every set of options and values, their order, every way of building the command (text, methods, mixed) and of running it',
     'The tests split four short texts into dictionaries and never run a command.',
     ['main/api.py', 'util/strings.py', 'main/context.py', 'main/__init__.py'],
     [('builder', S + 'main/api.py:Command'), ('arguments from text', S + 'util/strings.py:to_argdict'), ('text from arguments', S + 'util/strings.py:to_argv')],
     T_RUN, 'random commands built and run in random ways; outputs and results compared with the command line')
prop('C12', 'An execution gives the same result whatever was executed before',
     'The maps of an execution depend only on its inputs, its settings and the configured data: running it alone in a new process with a new user configuration, or after any history of other '
     'executions in the same process and folders (other files under the same names, repetitions, other formats, the Python API, failed executions, tables created or read, output folders with old maps) '
     'gives the same maps, and files of the output folder that are not its own stay as they were.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of executions (related ones that share a grid, target, table or geopotential, and unrelated ones), failures in between, ways of running them and reuse of paths and folders',
     'Every test starts from a prepared state and runs one operation; none compares a result with and without a history.',
     ['main/interpolation/__init__.py', 'main/manipulation/correction.py', 'main/config.py', 'main/controller.py', 'main/api.py'],
     [('tables in memory', S + 'main/interpolation/__init__.py:_LOADED_INTERTABLES'), ('correctors in memory', S + 'main/manipulation/correction.py:get_instance'),
      ('global configuration', S + 'main/config.py:GlobalConf')],
     T_RUN, 'random histories in a forked process compared with each execution alone in its own process')
prop('C20', 'Whatever interrupts a command, tables and configuration stay usable',
     'When a run with -B (command line or API) or a registration with -g ends at any moment (killed, Ctrl-C) or any of its file operations fails (full disk, error), the configuration of the user '
     'stays readable with all its entries, tables and geopotentials that were there stay as they were and work, no incomplete table, geopotential or configuration is ever used (a run without -B refuses '
     'or gives the right maps), a command that reports success has done its work, and the same command again in the same folders succeeds and gives the maps of an undisturbed run.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every call that changes a file of the user configuration, the table folder, the geopotential folder or the output folder, as the point where the process ends (before it or half way through a '
     'write) or where an error is returned; every initial state, interpolation mode and way of running',
     'No test interrupts anything or makes a file operation fail.',
     ['main/interpolation/__init__.py', 'main/config.py', 'main/writers/netcdf.py', 'util/files.py'],
     [('tables written aside and moved', S + 'main/interpolation/__init__.py:_write_intertable'), ('configuration written aside and moved', S + 'main/config.py:BaseConfiguration.dump'),
      ('geopotential added', S + 'main/config.py:GeopotentialsConfiguration.add')],
     T_RUN, 'fault injection at system calls by a preloaded library; state compared and everything run again after each fault')

prop('C21', 'Commands that go on at the same time do what they do one after the other',
     'Several runs (command line or API, with or without -B), registrations (-g) and checks (-K) of one user going on at the same time each end and give what they give alone; afterwards the '
     'configuration has the entries of all of them, each table has its own complete file, each geopotential is the file of its own grid, every run works without -B with the same maps, and no temporary '
     'file is left. Geopotentials that exclude each other (same grid, same file name): exactly one is added, the other is refused.',
     ['schedules', 'inputs'],
     'every interleaving of the file operations of the processes, pair of operations (same table, tables that would like the same file name, first run of a user, readers, same geopotential) and '
     'initial state',
     'No test runs two processes.',
     ['main/interpolation/__init__.py', 'main/config.py'],
     [('table names', S + 'main/interpolation/__init__.py:_free_filename'), ('entries of the user', S + 'main/config.py:BaseConfiguration.set_user_var'),
      ('first configuration', S + 'main/config.py:BaseConfiguration.merge_with_user_conf')],
     T_RUN, 'one process is held at each of its file operations while the others go on, and random delays; results and state checked after each schedule')

prop('C19', 'Every run releases all it opened, also when it fails',
     'When a run, a registration or a call of the API returns or raises, whatever the reason, every GRIB message and index it read is released, once, and no process, thread or temporary file of it '
     'is left; working folder, umask and log handlers are as before. Files are closed as soon as the objects of the run are gone. Repeating a run does not take more and more memory.',
     ['histories', 'inputs', 'fault_sequences'],
     'every command (command line and API), valid or wrong, mode, format, correction, damaged input and failing write, in any order and any number in one process',
     'Tests look at results of single runs; what stays open shows only in counters of the libraries and of the system after the run.',
     ['main/readers/grib.py', 'main/controller.py', 'main/api.py', 'main/config.py', 'main/manipulation/correction.py'],
     [('release of messages and indexes', S + 'main/readers/grib.py:close'), ('end of a run', S + 'main/controller.py:close'), ('identifier of a geopotential', S + 'main/readers/grib.py:get_id')],
     'runtime monitoring: counting proxy at the ecCodes binding, descriptors, processes, threads and memory compared before and after every run of hostile workloads',
     'workloads of other checks (mistakes, faults, registry, API) with counters around every run, and long repetitions with large messages')

prop('C23', 'Parallel computation changes nothing but the time it takes',
     'With -X (interpolationParallel of the API, its default) and with any number of threads, every interpolation mode makes a table that gives the maps of a run without it, for every size and shape '
     'of the target, with cells outside the grid or without coordinates. Tables made in one way serve runs made in the other, and runs that are refused without -X are refused with it. If a worker '
     'process dies the run ends with an error or right maps, and the same command again gives the right maps.',
     ['schedules', 'inputs', 'configurations'],
     'every mode, target, grid, correction, number of threads, death of a worker at any moment',
     'No test uses -X on a GRIB mode nor compares parallel and serial results.',
     ['main/interpolation/grib_interpolation_lib.py', 'main/interpolation/scipy_interpolation_lib.py', 'main/interpolation/__init__.py', 'main/api.py'],
     [('parallel nearest', S + 'main/interpolation/grib_interpolation_lib.py:grib_nearest_parallel'), ('parallel inverse distance', S + 'main/interpolation/grib_interpolation_lib.py:grib_invdist_parallel'),
      ('threads of the angular weights', S + 'main/interpolation/scipy_interpolation_lib.py:adw_compute_weights_from_cutoff_distances')],
     T_RUN, 'every mode run serially and in parallel through command line and API, all maps compared; workers of the pool killed at random moments')
