#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth of the property texts)."""
import json, os
S='src/pyg2p/'
M=S+'main/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['observe_at']=list(observe)
    a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))
EXE='maps written in the output folder and exit code of pyg2p'
p('P01','Only and all the selected GRIB messages determine the output',
 "The maps produced depend only on, and on all of, the messages of the input file having the requested short name (or its upper case, or its 'var' variant) and matching every requested selector (ensemble member, level, data date, data time), whose steps lie between the requested start and end step (defaults 0 and the last step available), extended back by one aggregation step when the input has several steps and an aggregation is requested. Order of messages in the file, other messages in it and the kind of access to the file never change the result. If no message starts at or after the (extended) start step, all the messages of the parameter up to the end step are used; if none is left the execution writes no map.",
 ['inputs','configurations'],'every GRIB file (any multiset and order of messages with different short names, members, levels, dates, times, steps) and every combination of selectors from command line or commands file',
 'Tests use few fixed GRIB files with at most one selector; the product of selectors, defaults, step bounds and decoy messages is not sampled.',
 [M+'readers/grib.py',M+'context.py',M+'controller.py'],
 [('selection filters',M+'readers/grib.py GRIBReader.scan_grib/_find/_get_gids'),('selectors',M+'context.py create_select_cmd_for_reader, create_select_cmd_for_aggregation_attrs'),('usable start',M+'manipulation/aggregator.py get_real_start_end_steps')],
 [('selected messages','messages that contribute','GRIBReader._selected_grbs')],[EXE])
p('P02','Accumulation maps are differences of the cumulated input over each window',
 "With accumulation of step S and output unit time U, there is exactly one map for each window end E = first window end, +S, ... up to the end step (first end is the start step, or S when it starts at 0), and its value at every cell is (A(E) - A(E-S)) * U / S. A is the cumulated input, piecewise linear between the available steps, zero at step 0 when that message is missing (and needed) or when a zero array is forced.",
 ['inputs','configurations'],'every set of available steps (regular, irregular, missing, starting later than 0), start/end/aggregation step, unit time and force-zero option with start 0 or not smaller than the aggregation step and end not after the last message',
 'Tests only check few regular sequences; interpolation of missing steps, forced zero, not aligned starts and unit times multiply to a space that is not enumerated.',
 [M+'manipulation/aggregator.py',M+'controller.py'],[('accumulation',M+'manipulation/aggregator.py Aggregator._accumulation')],
 [('ordered values','end step to values','Aggregator._accumulation v_ord')],[EXE])
p('P03','Average maps are the exact mean of the messages covering each window',
 "With average of step S there is exactly one map for each window of length S tiling the requested period, and its value is the mean over the S hours of the window of the message valid at that hour (the one ending at that hour, otherwise the next one available). With half weights the value is the mean of the messages available from the beginning to the end of the window, where the messages exactly at the two ends weigh half. Averages of cumulated parameters are refused without writing any map.",
 ['inputs','configurations'],'every set of available steps, start/end/aggregation step and half weights flag with a message available at or after each needed hour (at least two messages per window for half weights)',
 'Tests compare few regular series; window boundaries, irregular steps, start at 0 or later and half weights combinations are not enumerated.',
 [M+'manipulation/aggregator.py',M+'controller.py'],[('average',M+'manipulation/aggregator.py Aggregator._average')],(),[EXE])
p('P04','Instantaneous and not aggregated maps are exactly the input fields',
 "Without aggregation each selected message gives exactly one map holding its own values, in order of end step. With instantaneous aggregation of step S there is one map for every S hours to the end of the requested period (beginning S hours before its start step if that is later than 0, otherwise at it, or one input step after it for averaged fields), holding the message ending at that hour or, if missing, the next one available (zeros for hour 0 when it is missing). No value is changed, mixed with others, dropped or duplicated.",
 ['inputs','configurations'],'every set and order of messages, start/end/aggregation step and step type',
 'Tests check few files, mostly for a single map, and never with shuffled or irregular steps.',
 [M+'manipulation/aggregator.py',M+'controller.py'],[('instantaneous',M+'manipulation/aggregator.py Aggregator._instantaneous'),('ordering',M+'controller.py Controller.execute')],(),[EXE])
p('P05','Changes of spatial resolution neither lose, duplicate nor mix windows',
 "When messages come in two spatial resolutions (second part of the same file or a second input file), windows ending up to the step where the resolution changes are computed from first resolution messages only and later windows from second resolution messages only. Each map is interpolated with the grid of the messages it was computed from, and the resulting series has the same windows and labels as the one obtained from input in a single resolution (except that not aggregated and instantaneous outputs hold the step of the change in both resolutions).",
 ['inputs','configurations'],'every switch step, pair of grids, aggregation type and step (window boundaries aligned to the switch), one or two files, both output formats',
 'There is no test with two resolutions and aggregation whose values are checked; the switch position times aggregation step space is not enumerable by samples.',
 [M+'controller.py',M+'readers/grib.py',M+'writers/__init__.py',S+'__init__.py'],[('second resolution manipulation',M+'controller.py Controller.second_res_manipulation/execute'),('switch of grids',M+'writers/__init__.py OutputWriter._write_maps_*'),('second resolution detection',M+'readers/grib.py GRIBReader.select_messages')],
 [('change resolution step','first step at second resolution','GribGridDetails._change_resolution_step')],[EXE])
p('P06','Missing values are never used as data, and valid cells never get lost',
 "An output cell is missing if, and only if, a value it is computed from is missing (messages of the window, interpolation neighbours, elevation or geopotential used for correction), or it is masked by the clone map, or it is out of the source grid coverage. No output cell ever holds a number derived from a missing value marker, in any output format, for any aggregation, conversion, cut-off, correction and interpolation method.",
 ['inputs','configurations'],'every pattern of missing cells in any message (also different at each step), clone map, elevation map and geopotential, times aggregation, conversion, cut off, interpolation mode and output format',
 'Test data has no bitmaps changing with the step; each combination of mask pattern and processing stages is a separate path.',
 [M+'manipulation/aggregator.py',M+'manipulation/conversion.py',M+'manipulation/correction.py',M+'interpolation/__init__.py',M+'writers/__init__.py',M+'writers/pcr.py',M+'writers/netcdf.py',S+'util/numeric.py'],
 [('mask propagation',S+'util/numeric.py get_masks, result_masked'),('interpolation masks',M+'interpolation/__init__.py _interpolate_scipy_append_mv'),('output masks',M+'writers/__init__.py _output_values; writers _mask_values')],(),[EXE])
p('P07','Unit conversion and cut-off apply exactly once, to data only',
 "The configured conversion function is applied exactly once to every valid input value before aggregation, and to no missing value; the identity conversion and no conversion give unchanged values. If, and only if, the selected conversion requires it, negative results of aggregation are replaced by zero and every other value is unchanged. A conversion that is not configured for the parameter is refused without writing any map.",
 ['inputs','configurations'],'every parameter, conversion (single or list, identity, linear and not linear), cut-off flag, sign pattern and aggregation, first and second resolution',
 'Tests cover a couple of conversions without aggregation, missing values or list lookups.',
 [M+'manipulation/conversion.py',M+'controller.py',M+'config.py'],[('conversion',M+'manipulation/conversion.py Converter.convert'),('cut off',M+'manipulation/conversion.py Converter.cut_off_negative; controller.py execute'),('lookup',M+'config.py ParametersConfiguration.get_conversion')],(),[EXE])
p('P08','Elevation correction applies the formula with the matching geopotential',
 "With correction configured, every output cell having parameter, elevation and geopotential values equals the correction formula of the interpolated parameter, the elevation map and the interpolated converted geopotential; other cells are missing. The geopotential is the one of the input file when present, otherwise the registered one for the same source grid, and when none is registered the execution fails without maps.",
 ['inputs','configurations','histories'],'every formula, elevation map, geopotential source (inside the input, user folder, alternative folder), grid (also with two resolutions), interpolation mode and sequence of executions in the same process',
 'Tests check one correction on one grid; the choice of the geopotential per grid and run is history dependent.',
 [M+'manipulation/correction.py',M+'context.py',M+'config.py',M+'writers/__init__.py'],[('formula',M+'manipulation/correction.py Corrector.correct/_read_geo'),('choice of geopotential',M+'context.py geo_file; config.py GeopotentialsConfiguration.get_filepath'),('instances',M+'manipulation/correction.py Corrector.get_instance')],
 [('instances','correctors of the process','Corrector.instances')],[EXE])
p('P09','Interpolated values are the ones the method defines for source and target',
 "Nearest methods give each target cell the value of a source point at minimum distance; inverse distance, angular distance and correlation decay methods give a convex combination of the values of the nearest neighbours (inverse distance weights for the former), equal to the source value when the target is on a source point (correlation decay excepted). Bilinear and triangulation methods reproduce any field linear in latitude and longitude inside the source coverage and stay within the values of the surrounding points. Targets are identified by their own coordinates, whatever their order, orientation and longitude convention, and targets not covered by a regional source grid (out of its box, or farther than its resolution from any of its points) are missing, except with angular distance and correlation decay methods, that have no limit of distance.",
 ['inputs','configurations'],'every source grid (global, regional, both scan directions), target coordinates, interpolation mode and field',
 'Tests compare single maps of few modes against stored results, some not available offline; they do not cover arbitrary source and target geometries.',
 [M+'interpolation/__init__.py',M+'interpolation/scipy_interpolation_lib.py',M+'interpolation/grib_interpolation_lib.py',M+'interpolation/latlong.py'],
 [('weights',M+'interpolation/scipy_interpolation_lib.py ScipyInterpolation._build_*'),('application of tables',M+'interpolation/__init__.py _interpolate_scipy_append_mv, grib_nearest, grib_inverse_distance'),('grib neighbours',M+'interpolation/grib_interpolation_lib.py')],(),[EXE,'intertable files'])
p('P10','Execution strategy never changes interpolation results',
 "Parallel or serial creation of the table, broadcasting or not, any number of splits, a table freshly computed or read back from disk, in the same or in a later execution, PCRaster or netCDF coordinate maps and output: all of them give the same interpolated values.",
 ['configurations','histories'],'every interpolation mode supporting each strategy, number of splits from 1 to more than the rows of the target, source and target grids, sequences create/reuse',
 'Tests run a single strategy per mode and never compare strategies with each other.',
 [M+'interpolation/__init__.py',M+'interpolation/scipy_interpolation_lib.py',M+'interpolation/grib_interpolation_lib.py'],[('splits and broadcasting',M+'interpolation/scipy_interpolation_lib.py interpolate, interpolate_split, _build_weights_invdist'),('parallel',M+'interpolation/grib_interpolation_lib.py *_parallel'),('save and read back',M+'interpolation/__init__.py _save_intertable, _read_intertable')],(),[EXE])
p('P11','Interpolation tables are only created on request and then reused unchanged',
 "A table is created, and its registration written, only when creation was requested (and the writable folder is configured and existing) and the table for that source grid, target and method is missing; otherwise the execution fails without maps and without changing tables or registrations. An existing registered table is used as it is and never modified or replaced, and results with it equal the ones of the execution that created it. A registered table whose file is missing is created again, on request, with the same registration.",
 ['histories','configurations'],'every sequence of executions over grids, targets and methods with and without creation requested, alternative folders, removed files and removed or missing registrations',
 'Tests run against a pre-arranged table folder; lifecycle histories are never explored.',
 [M+'interpolation/__init__.py',M+'config.py'],[('lookup',M+'interpolation/__init__.py Interpolator._intertable_filename'),('creation guard',M+'interpolation/__init__.py create_if_missing; config.py check_write'),('registration',M+'interpolation/__init__.py update_intertable_conf; config.py dump')],
 [('registry','table id to file, method, shapes','~/.pyg2p/intertables.json'),('tables','files','INTERTABLES folder')],[EXE,'intertables folder and intertables.json after each execution'])
p('P12','An interpolation table is never used for another grid, target or method',
 "After any history of executions, a result obtained with stored tables equals the one of the same execution with an empty table store: tables of executions with a different source grid, target coordinates or interpolation method are never used, overwritten or registered in its place. Two registrations never share the same table file.",
 ['histories','configurations'],'every history of executions over source grids, targets (also same extent with different number of cells) and methods, in one or many processes, with user files already in the folder',
 'Needs histories over pairs of configurations; tests run each configuration alone.',
 [M+'interpolation/__init__.py',M+'interpolation/latlong.py',S+'__init__.py'],[('identity of tables',S+'__init__.py GribGridDetails._build_id; interpolation/latlong.py identifier; interpolation/__init__.py _intertable_filename'),('new names',M+'interpolation/__init__.py _new_intertable_filename')],
 [('registry','table id to file','~/.pyg2p/intertables.json'),('cache','tables loaded by the process','Interpolator._LOADED_INTERTABLES')],[EXE,'intertables folder and intertables.json'])
p('P13','Interrupted or concurrent executions never corrupt tables or configuration',
 "If an execution is interrupted at any point, or other executions run at the same time on the same folders, then every configuration file is still a valid one, every registered table is complete and the right one for its registration, and any later execution gives the same results as on an untouched installation. Concurrent executions give the same maps as if each had run alone.",
 ['crash_points','schedules','fault_sequences'],'every point of interruption of an execution writing tables and configuration, and every interleaving of file operations of two executions sharing folders',
 'Tests neither interrupt executions nor interleave two of them.',
 [M+'interpolation/__init__.py',M+'config.py'],[('atomic replacement of tables',M+'interpolation/__init__.py _save_intertable'),('reservation of names',M+'interpolation/__init__.py _save_intertable, _exists_intertable'),('atomic replacement of configuration',M+'config.py BaseConfiguration.dump')],
 [('registry','table id to file','~/.pyg2p/intertables.json'),('tables','files, also temporary','INTERTABLES folder')],['folders after interruption','maps and exit codes of all the executions'])
p('P14','One PCRaster map per output step, in order, with the configured numbering',
 "The i-th output step in order of time is written as the map numbered first number + (i-1) * extension step, in a file named as the prefix followed by that zero padded number in 8.3 form; a long prefix is truncated and never the number. There are exactly as many maps as output steps, all with size, georeference and missing cells of the clone map. Any other file in the output folder is left untouched.",
 ['inputs','configurations'],'every prefix length, first number, extension step, number of steps and clone map',
 'Tests check few names for default numbering.',
 [M+'writers/__init__.py',M+'writers/pcr.py'],[('names',M+'writers/__init__.py OutputWriter._name_pcr_map'),('clone',M+'writers/pcr.py PCRasterWriter.write')],(),[EXE])
p('P15','netCDF output decodes to the same steps and values, with declared metadata',
 "The netCDF file decoded with the standard conventions (scale, offset, fill value, valid range) holds one time per output step, equal to its end step in the declared units since the data date of the messages, and the same values that PCRaster output has within the precision of the declared format; coordinates are the ones of the target. Conversion to other step units keeps the same instants, and values out of the requested valid range or without data decode as missing.",
 ['inputs','configurations'],'every value format (where values fit), scale, offset, valid range, output step units, GRIB step units, data date and time, aggregation, mask, target size',
 'Tests check few attributes on one file; the product of packing options and masks is not sampled.',
 [M+'writers/netcdf.py',M+'writers/__init__.py',S+'__init__.py'],[('packing',M+'writers/netcdf.py NetCDFWriter.write'),('time axis',M+'writers/netcdf.py write; writers/__init__.py _write_maps_netcdf'),('data date',S+'__init__.py Messages')],(),['netCDF file read with the netCDF4 library'])
p('P16','Command line overrides the commands file, which overrides defaults',
 "For every option available in both places, the command line value is used if given, otherwise the value of the commands file, otherwise the documented default, independently for each option, and a value equal to zero is a value. User variables in paths of the commands file are replaced with their full configured values, user definitions of parameters override the global ones, and options have the same meaning in short and long form and in any order.",
 ['configurations'],'every subset of options given on command line and in commands file, with every value including 0 and defaults; every set of user variables',
 'Tests exercise options one at a time on fixed templates.',
 [M+'context.py',M+'config.py'],[('merge of options',M+'context.py ExecutionContext._define_exec_params'),('arguments',M+'context.py add_args/_define_input_args'),('variables',M+'config.py UserConfiguration.interpolate_strings, load_properties; BaseConfiguration.merge_with_user_conf')],
 [('execution parameters','effective options','Context._vars')],[EXE])
p('P17','The Python API gives the same results as the command line',
 "Executing a configuration with the Python API returns, for every output step and cell, the same value that the command line execution writes (missing cells having the missing value of the clone map), in the same order, and running a command built or edited with the API has the same effect as running it from the shell. Executions with the API never write maps.",
 ['configurations','inputs'],'every configuration accepted by both interfaces: selectors, aggregations, conversions, corrections, interpolation modes, masks; every command string and edit',
 'Tests run API and command line on different cases, without comparing.',
 [M+'api.py',M+'controller.py',S+'util/strings.py'],[('API context',M+'api.py ApiContext._define_exec_params'),('API execution',M+'api.py Pyg2pApi.execute'),('commands',M+'api.py Command; util/strings.py to_argdict, to_argv')],(),['values returned by the API','maps written by the command line execution'])
p('P18','Registered geopotentials are never lost, replaced or mixed up',
 "Adding a geopotential copies it unchanged in the user folder and registers it for its own grid, leaving files and registrations of other grids unchanged, also when files have the same name; adding one for an already registered grid is refused with nothing changed. Removing one removes only its registration, and corrections always use the file registered for the grid, searched in the alternative, user and global folder in this order.",
 ['histories'],'every sequence of add, remove and correction over grids, file names (also colliding) and folders, in one or many processes',
 'Tests add and remove one geopotential at a time in a clean folder.',
 [M+'config.py',S+'util/files.py',M+'context.py'],[('registry',M+'config.py GeopotentialsConfiguration.add/remove/get_filepath'),('copy',S+'util/files.py copy')],
 [('registry','grid id to file name','~/.pyg2p/geopotentials.json'),('files','copied geopotentials','GEOPOTENTIALS folder')],['geopotentials folder and registry after each command',EXE])
p('P19','Refused executions report failure, write nothing, and never harm input',
 "An execution with a not valid configuration or input (missing files or maps, unknown parameter, conversion or mode, start after end, incomplete or not supported request, missing table or geopotential) ends with exit code 1 and no map written, while having no message to convert is reported with exit code 0 and no map. Only successful executions with maps written end with 0 otherwise. Input files, maps, commands files and files of users are never modified.",
 ['configurations','inputs','fault_sequences'],'every single and combined fault in configuration and input, over otherwise valid executions',
 'Tests check some errors one at a time, not their combinations nor the absence of output.',
 [M+'__init__.py',M+'context.py',M+'controller.py',S+'exceptions/__init__.py'],[('checks',M+'context.py Context._check_exec_params'),('exit code',M+'__init__.py pyg2p_exe/execute'),('closing',M+'controller.py close; writers/netcdf.py close')],(),[EXE,'content of all the other files before and after'])
p('P20','Results do not depend on previous executions in the same process',
 "An execution gives the same maps, exit code and registrations whatever executions were run before in the same process, with other inputs, targets, parameters, corrections, modes or failures, as if it was run in a new process on the same files.",
 ['histories'],'every sequence of executions (command line entry point or API) in a process over configurations differing in any option',
 'Tests that run several executions in a process do not compare with fresh ones and share caches by accident.',
 [M+'interpolation/__init__.py',M+'manipulation/correction.py',M+'config.py',M+'readers/grib.py'],[('table cache',M+'interpolation/__init__.py Interpolator._LOADED_INTERTABLES'),('correctors',M+'manipulation/correction.py Corrector.instances'),('global configuration',M+'config.py GlobalConf.instance')],
 [('caches','tables, correctors, configuration kept by the process','class attributes')],[EXE])
p('P21','Angular distance and correlation decay weights follow the formulas of their methods',
 "With mode adw each cell is the mean of its 11 nearest source points weighted by s^2 (1 + T): s is 1/d up to a third of the radius r, 27/(4r) (d/r-1)^2 up to r, zero beyond; r is the distance of the 5th point if less than 4 points are within the reference radius (mean over the targets of the distance of the 7th point), the one of the 11th if at least 10 are, else the reference radius; T of a point is the mean, weighted by s, of 1 - cos of the angles between it and the other points, in the plane of latitudes and longitudes. With mode cdd weights are s (1 + T / sum of T), where s is exp(-4 d/CDD) within the CDD value of the cell (Hofstra, missing if less than 3 points are within it) or of the source point (NewEtAl), or, with MixHofstraShepard, exp(-m d/r) up to radius_ratio * r, then a square falling to zero at r, with r as in adw with CDD as reference radius and min_num_of_station in place of 4. Options of @cdd_options, in any order, have these meanings; without them m=4, min_num_of_station=4, radius_ratio=1/3.",
 ['inputs','configurations'],'every source grid, target, field, CDD map, CDD mode and options, with or without broadcasting, splits and tables read back',
 'Tests compare few stored maps (most of them not available offline), so that the branches of the radius, the options and the directions are not told apart.',
 [M+'interpolation/scipy_interpolation_lib.py',M+'interpolation/__init__.py'],[('distance weights',M+'interpolation/scipy_interpolation_lib.py adw_compute_weights_from_cutoff_distances, cdd_*_compute_weights_from_cutoff_distances'),('directions',M+'interpolation/scipy_interpolation_lib.py _build_weights_invdist, adw_and_cdd_compute_weights_directional_in_broadcasting'),('application of tables',M+'interpolation/__init__.py')],
 [],[EXE])
p('P22','Downloads of datasets deliver whole files, keep the ones of the user, and survive interruptions',
 "Downloading a dataset (pyg2p -W geopotentials or intertables) ends with exit code 0 only if every file of its remote folder (other than ., .. and readme.txt) is in the folder of the user configured for it, with the content it has in the server; files already having one of those names are kept as they are, not downloaded again, and nothing else of the user is changed. A failure (server not reachable, refused login, missing folder or file, interrupted transfer, full disk, missing configuration) is reported with exit code 1. At no moment, also after failures, kills and with simultaneous downloads or executions, a file of the dataset is there incomplete under its name, and the following download completes the dataset.",
 ['histories','fault_sequences','crash_points','interleavings'],'every sequence of downloads, failures at any transfer and byte, kills at any file operation and simultaneous downloads, over remote and local contents of both datasets',
 'No test downloads: the remote server is not available to them.',
 [M+'config.py',M+'__init__.py'],[('download',M+'config.py Configuration.download_data'),('exit code',M+'__init__.py config_command')],
 [('dataset','files of the dataset in the folder of the user','INTERTABLES/GEOPOTENTIALS folder of the user')],['folders of the user at every file operation','exit code of pyg2p -W'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
