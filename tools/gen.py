#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (properties that have a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'dedop/proc/sar/algorithms/'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level_note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, level_note=level_note, observe=list(observe)))


PIPE_NOTE = ('Bounded-exhaustive: every case of the stated finite space is executed on the real processor (L1A file in, '
             'netCDF products out). Small instrument (8 pulses, 8 samples); nothing is claimed outside the bounds.')
NO_TEST = 'No stable test runs the processor end to end; '

prop('C01', 'A run depends only on its input file and configuration, not on history',
     'The products of a run are a function of the input file and the configuration: they are identical to those of a '
     'fresh processor whatever the same processor did before (successful, refused, cancelled or failed runs) and '
     'whatever other processors were created or run in between. The input file is never modified.',
     ['histories', 'schedules', 'configurations'],
     'all histories of up to two earlier runs (12 kinds of run) and all interleavings of two processors',
     NO_TEST + 'state left behind by an earlier run needs a history of runs to show.',
     ['dedop/proc/sar/processor.py', A + 'surface_locations.py', A + 'stack_gathering.py',
      'dedop/conf/auxiliary_file_reader.py'],
     [('state is cleared at the start of a run', 'dedop/proc/sar/processor.py L1BProcessor.process'),
      ('parameters live on the configuration object', 'dedop/conf/auxiliary_parameter.py')],
     'exhaustive exploration of run histories and of interleavings of two processors, differential oracle',
     PIPE_NOTE)

prop('C02', 'Segments separated by a gap are processed independently of each other',
     'A pass is split wherever consecutive valid bursts are at least one and a half burst intervals apart, and only '
     'there. The records of each segment are those of the segment processed on its own, whatever the number, length and '
     'content of the segments before and after it, and every burst is calibrated exactly once.',
     ['inputs', 'histories', 'configurations'],
     'all pairs and triples of segment lengths from a grid that covers every queue state, several gap lengths and '
     'configurations, all patterns of stretched intervals',
     NO_TEST + 'the streaming state at a gap depends on the whole history of segment lengths.',
     ['dedop/proc/sar/processor.py', 'dedop/data/input/l1a/l1a_dataset.py', 'dedop/model/l1a_processing_data.py'],
     [('gap detection and draining of the queues', 'dedop/proc/sar/processor.py'),
      ('calibration per packet', 'dedop/proc/sar/cal/')],
     'explicit exploration of segment-length histories on the real processor against a batch reference model',
     PIPE_NOTE)

prop('C03', 'Exactly the valid records inside the region of interest are processed',
     'A record takes part exactly if it has a position (not latitude = longitude = 0) and lies inside the configured '
     'latitude and longitude limits, limits included. Records that do not take part influence nothing: the products are '
     'those of a file from which they have been removed.',
     ['inputs', 'configurations'],
     'every subset of invalid records of a segment, every limit on or between records (one- and two-sided), '
     'combinations of both, for three ground tracks',
     NO_TEST + 'skipping depends on where in the streaming history a bad record falls.',
     ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/proc/sar/processor.py'],
     [('record iteration with region of interest', 'dedop/data/input/l1a/l1a_dataset.py'),
      ('invalid records are skipped', 'dedop/data/input/l1a/l1a_dataset.py')],
     'exhaustive enumeration of record subsets and limits, reference model and differential oracle',
     PIPE_NOTE)

prop('C04', 'A stack holds exactly the beams of the bursts that see its surface, in order',
     'Every surface is reported once, in the order along the track, and its stack holds exactly one beam of every burst '
     'of its segment that sees it, trimmed to the configured number of looks closest to nadir; surfaces with less than '
     'half of the looks are left out. This does not depend on how the records stream through the processor.',
     ['inputs', 'histories', 'configurations'],
     'all segment lengths up to the bound, five ground tracks, all looks 1..12, several pulses per burst and burst rates',
     NO_TEST + 'which beam ends in which stack depends on the fill level of the queues.',
     ['dedop/proc/sar/processor.py', A + 'stack_gathering.py', A + 'beam_angles.py', A + 'surface_locations.py'],
     [('visibility of surfaces', A + 'beam_angles.py'), ('stack gathering and trimming', A + 'stack_gathering.py'),
      ('streaming queues', 'dedop/proc/sar/processor.py')],
     'exhaustive exploration of stream lengths and configurations against a batch reference model',
     PIPE_NOTE)

prop('C05', 'A cancelled or failing run leaves closed, readable products',
     'Whenever a run is cancelled or fails, at whatever point, all files it opened are closed when it returns, the '
     'progress monitor is finished, and the products written so far can be read. Their records are the first records of '
     'the complete products (a record being written when the failure strikes aside), the same number in both products, '
     'and never fewer when the run is stopped later.',
     ['fault_sequences', 'crash_points'],
     'a cancellation at every poll of the run, an exception out of every progress report and every poll and out of the '
     'first and last call of every function of the processing, and every kind of unusable input, configuration and '
     'output folder',
     'The tests never cancel or fail a run; every stopping point is a different execution.',
     ['dedop/proc/sar/processor.py', 'dedop/data/output/netcdf_writer.py', 'dedop/data/input/netcdf_reader.py'],
     [('cleanup on every way out of the run', 'dedop/proc/sar/processor.py')],
     'fault enumeration: one execution per cancellation or failure point', PIPE_NOTE)

prop('C06', 'L1B, L1BS and the two L1B formats agree; optional output changes nothing else',
     'The quantities that the L1B product, the L1BS product and the two L1B formats share are equal, record by record, '
     'up to the resolution of the stored number. Writing the L1BS product or not changes nothing in the L1B product, and '
     'the L1B format changes nothing in the L1BS product. Products are named after the input file and the run, never '
     'collide, and carry over the global attributes of the input.',
     ['inputs', 'configurations'],
     'every combination of pass and configuration in both formats with and without L1BS; every naming case',
     'The tests write single hand-made records with one writer at a time.',
     ['dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py', 'dedop/proc/sar/processor.py'],
     [('writers', 'dedop/data/output/'), ('output file names', 'dedop/proc/sar/processor.py')],
     'bounded-exhaustive differential exploration over outputs, passes and configurations', PIPE_NOTE)

prop('C07', 'Beams are the windowed pulses of a burst, steered to the surface they look at',
     'Each beam of a stack is the coherent sum of the pulses of its burst, weighted by the configured azimuth window and '
     'brought into phase for the direction of the surface (exact method), or the Doppler beam of the evenly spaced '
     'fan that looks there (approximate method). Window method, window width and number of pulses have the effect that '
     'their names say, and each burst is steered with its own geometry only.',
     ['inputs', 'configurations'],
     'both steering methods, every window and width for 4..12 pulses, bursts that see any number of surfaces, '
     'several orbits and instruments',
     NO_TEST + 'the weights and phases differ for every burst, surface and window.',
     [A + 'azimuth_processing.py', A + 'beam_angles.py'],
     [('exact and approximate beam forming', A + 'azimuth_processing.py'), ('azimuth windows', A + 'azimuth_processing.py')],
     'bounded-exhaustive exploration of configurations against a direct-sum reference model', PIPE_NOTE)

prop('C08', 'Beams are aligned in range by the enabled corrections, and masked outside',
     'Before multilooking every beam is shifted in range by exactly the enabled corrections (Doppler, slant range and '
     'the motion of the receive window), so that the surface lies at the same sample in every beam of the stack. '
     'Samples that would wrap around the receive window, and beams outside the limits on the look angle, are masked and '
     'influence nothing when masking is on.',
     ['inputs', 'configurations'],
     'all combinations of the four flags, range oversampling 1..4, moves of the receive window up to several windows, '
     'limits on the look angle',
     NO_TEST + 'alignment and masks depend on the geometry of every single beam.',
     [A + 'geometry_corrections.py', A + 'range_compression.py', A + 'stack_masking.py'],
     [('geometry corrections', A + 'geometry_corrections.py'), ('range compression', A + 'range_compression.py'),
      ('stack masking', A + 'stack_masking.py')],
     'bounded-exhaustive exploration of configurations against a reference model', PIPE_NOTE)

prop('C09', 'The waveform is the mean of the usable beams; waveform and statistics are finite',
     'The multilooked waveform is, sample by sample, the mean of the power of the beams of the stack that take part, '
     'multiplied by the antenna weight of their angle if antenna weighting is on; masked samples count as configured (left '
     'out or as zero). The first and last angles are those of the first and last beam used, and the stack '
     'statistics are those of a Gaussian fitted to the beam powers; nothing is ever NaN or infinite, whatever the echoes.',
     ['inputs', 'configurations'],
     'eight kinds of echoes (silent, weak, strong, mixed), all flags, four antenna tables, 1..12 looks, both formats',
     NO_TEST + 'the test of this algorithm does not pass on the base tree.',
     [A + 'multilooking.py'],
     [('multilooking', A + 'multilooking.py'), ('stack statistics', A + 'multilooking.py')],
     'bounded-exhaustive exploration of echoes and configurations against a reference model', PIPE_NOTE)

prop('C10', 'Geodetic and Cartesian coordinates convert into each other everywhere',
     'A position given as latitude, longitude and altitude and the same position in Earth-fixed Cartesian coordinates '
     'convert into each other within a few centimetres at every latitude (poles and equator included), every longitude and every '
     'altitude from below the ground up to the orbit. Normalised angles point in the same direction and lie between -pi '
     'and pi, and the angle between two vectors is right for all pairs of vectors, parallel and opposite ones included.',
     ['inputs'],
     'a dense grid of latitudes x longitudes x altitudes x three ellipsoids, refined at the poles, the equator and the '
     'branch points; all pairs of a grid of vectors',
     'The tests convert a handful of points.',
     ['dedop/proc/geo/ecef2lla.py', 'dedop/proc/geo/lla2ecef.py', 'dedop/proc/geo/normalize.py', 'dedop/proc/functions/vectors.py'],
     [('conversions', 'dedop/proc/geo/'), ('angle between vectors', 'dedop/proc/functions/')],
     'exhaustive enumeration of a finite grid of positions against an independent iterative solution',
     'Exhaustive over the grid; nothing is claimed between the grid points.')

prop('C11', 'Surfaces follow the ground track; a focusing target moves at most one',
     'The first surface of a segment lies below its first burst and each further one where the ground track leaves the '
     'azimuth resolution of the surface before it; position, orbit, velocity, attitude and range of a surface are '
     'interpolated between the two bursts around it. If focusing on a target is on, only the first surface that the '
     'target is nearest to is moved, to the point of the track nearest to the target, and no other surface changes.',
     ['inputs', 'configurations'],
     'five ground tracks (date line, equator, near the pole), several segments, a target in every burst interval from '
     'before the first to behind the last burst, on and beside the track',
     NO_TEST + 'placement depends on the history of surfaces of the segment.',
     [A + 'surface_locations.py', 'dedop/model/surface_data.py'],
     [('surface locations', A + 'surface_locations.py'), ('focusing', A + 'surface_locations.py')],
     'bounded-exhaustive exploration of tracks and targets against a reference model', PIPE_NOTE)

prop('C12', 'Times of a record follow from its bursts, across midnight and leap seconds',
     'The time of every record is interpolated between its two bursts and is given consistently as TAI, as UTC day and '
     'second of day and as GPS time. The second of day is never negative and never reaches the length of its day, and '
     'this holds wherever midnight or a leap second falls between the bursts.',
     ['inputs'],
     'midnight at every eighth of every burst interval of a segment, with and without an inserted or removed leap '
     'second, both formats, several days',
     NO_TEST + 'the branch at midnight is taken by one record of a whole day.',
     ['dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py', A + 'surface_locations.py'],
     [('UTC and GPS time', 'dedop/data/output/l1b_writer.py')],
     'exhaustive enumeration of the position of midnight and leap seconds against a reference model', PIPE_NOTE)

prop('C13', 'Every L1A record is used as it is in the file, in any order of access',
     'Whatever records are read before, a read of record number n of an L1A file gives the values of record n of this '
     'file, packed variables decoded with their scale and offset, and a number outside of the file is refused. '
     'Iterating gives every record once and in order, also when several files are read at a time. The calibrations of '
     'the record (gain, CAL1 power and phase, CAL2 table, centre of gravity) are applied as configured.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of reads over the positions around the ends and the read-ahead blocks of files of eight lengths, '
     'interleaved reading of two files, packings of the variables, all calibration flags and tables',
     'The stable tests read a few records in order; stale or shifted read-ahead blocks need a history of reads.',
     ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/data/input/input_dataset.py', 'dedop/proc/sar/cal/'],
     [('read-ahead of blocks of records', 'dedop/data/input/'), ('decoding of packed variables', 'dedop/data/input/'),
      ('calibrations', 'dedop/proc/sar/cal/')],
     'explicit exploration of all read sequences on the real reader against the content of the file',
     'Exhaustive within the stated file lengths, positions and depth of the read sequences.')

prop('C14', 'A stored number means what was computed, over the whole range of its variable',
     'Decoding a number of an L1B or L1BS file with the scale and offset of its variable gives the computed value to '
     'within half a step (or the precision of the stored type), whatever the strength of the echoes, and numbers '
     'that are copied from the L1A records are unchanged at both ends of the range of their variable. Elements for '
     'beams which the stack does not have, and variables that are not available, hold the fill value, never a number.',
     ['inputs', 'configurations'],
     'echo strengths from 0 to 1e12 with silent bursts, every copied variable at the ends of its range, packed '
     'variables over their range, every number of looks, every type, packing and shape of the writer on its own '
     '(the fixed-point waveforms of the Sentinel-3 and L1BS formats end at 4.29e6)',
     NO_TEST + 'overflow and wrapped padding need the extreme values of each variable.',
     ['dedop/data/output/netcdf_writer.py', 'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py',
      A + 'multilooking.py'],
     [('packing of the variables', 'dedop/data/output/'), ('waveform scaling', 'dedop/data/output/l1b_writer.py')],
     'exhaustive enumeration of extreme values and sizes on the real processor against a reference model', PIPE_NOTE)

prop('C15', 'The sigma0 scale factors follow from the radar equation',
     'For every record the scale factor for sigma0 is the mean over the beams of its stack of the radar equation '
     '(transmitted power, antenna gain, wavelength, transmit-receive ratio, pulses per burst, range and speed of each '
     'beam, footprint) with the gain of the nearest burst; the extended format also gives the value of every beam. '
     'It is the same number in the L1B and the L1BS product and does not depend on the echoes or on other settings.',
     ['inputs', 'configurations'],
     'each instrument parameter over several values with three sets of constants, patterns of gain, speed and range '
     'along the pass, numbers of looks 1..12, 4..16 pulses per burst, both formats',
     NO_TEST + 'only the sum of a dozen terms is visible, so a wrong beam or gain shows only between unequal bursts.',
     [A + 'sigma_zero_scaling.py', 'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py'],
     [('scale factor', A + 'sigma_zero_scaling.py')],
     'exhaustive enumeration of instruments and gain patterns against a reference model', PIPE_NOTE)

prop('C16', 'The parameters of a run are those of its three parameter files',
     'A loaded parameter file gives exactly the values of the file (angles converted from degrees, texts only from '
     'the listed choices), an optional parameter that is absent gives its default and any other absent one an error '
     'naming it, and unknown parameters are reported and change nothing. Files of another version than the current '
     'one are refused. What one loaded file gives never depends on other files that were loaded or read before, and '
     'the configurations that come with the program load and process at full instrument size as they are.',
     ['inputs', 'histories', 'configurations'],
     'every parameter at several values and absent, nine versions of each file, all sequences of up to five loads, '
     'reads and releases over two objects and two contents of one path',
     'The stable tests read one valid file of each kind.',
     ['dedop/conf/auxiliary_file_reader.py', 'dedop/conf/auxiliary_parameter.py', 'dedop/conf/configuration.py',
      'dedop/conf/characterization.py', 'dedop/conf/constants.py', 'dedop/ui/data/'],
     [('version gate', 'dedop/conf/auxiliary_file_reader.py'),
      ('cached conversion of values', 'dedop/conf/auxiliary_parameter.py')],
     'explicit exploration of all load/read histories and enumeration of all single-parameter files',
     'Exhaustive within the stated values and depth of the histories.')

prop('C17', 'Upgrading a configuration applies the changes since its version, and no others',
     'After an upgrade, every parameter whose last change since the version of the file was an addition or a '
     'modification has the default value, every parameter whose last change was a removal is gone, and all others '
     'keep the value of the user; the file then has the current version and is accepted by the processor. A file that '
     'is current or newer is unchanged, a second upgrade changes nothing, and other configurations are not touched.',
     ['inputs', 'histories', 'configurations'],
     'all histories of two parameters over three versions (added, modified, removed, untouched in each) x files '
     'without version and of versions 0..4 x presence of the parameters; the three files at all versions together; '
     'every older version of the shipped files',
     'The stable tests upgrade a few fixed files; the order of removals and additions needs histories.',
     ['dedop/ui/workspace_manager.py', 'dedop/ui/data/config/'],
     [('changelog replay', 'dedop/ui/workspace_manager.py')],
     'explicit-state exploration of all changelogs and file versions against an abstract specification',
     'Exhaustive within two parameters and three versions; runs a copy of the program with generated defaults.')

prop('C18', 'Workspaces and their content are right after every history of operations',
     'After any sequence of creating, deleting, copying, renaming and selecting workspaces and configurations, '
     'editing configuration files, adding and removing inputs and removing outputs, the listings, the selection and '
     'the content of every file are those of an abstract store on which the same operations were done: nothing else '
     'is lost, changed or overwritten, copies are independent, and patterns list each matching product once. An '
     'operation on something that does not exist, or onto a name in use, is refused and leaves the whole directory '
     'tree as it was.',
     ['histories', 'inputs'],
     'all sequences of 77 operations over two workspaces, two configurations and three inputs, up to four from '
     'nothing and three from two filled trees (equal trees merged), observed by a new manager after every step',
     'The stable tests check single operations on small trees; lost or moved data needs histories.',
     ['dedop/ui/workspace_manager.py', 'dedop/ui/workspace.py'],
     [('operations on the workspaces directory', 'dedop/ui/workspace_manager.py')],
     'explicit-state breadth-first search of the real manager in lock step with an abstract model',
     'Exhaustive within the stated names, operations and depth; every transition is executed on the real code.')

prop('C19', 'No name leads out of the workspaces directory',
     'Whatever text is given as the name of a workspace, configuration or input, no operation creates, changes, moves '
     'or removes anything other than the workspace, configuration or input of that name below the workspaces '
     'directory: names that are empty, contain a path, or refer to the directory itself, its parent or the selection '
     'are refused and change nothing. Every other name (spaces, quotes, wildcards, leading dots or dashes, any '
     'script) works like any name.',
     ['inputs'],
     '34 hostile names in every position of 18 operations, in a filled and an empty tree, and 28 unusual names '
     'through a sequence of 22 operations',
     'The stable tests use plain names only.',
     ['dedop/ui/workspace_manager.py'],
     [('validation of names', 'dedop/ui/workspace_manager.py')],
     'exhaustive enumeration of hostile names per operation, as an unprivileged user, against tree snapshots',
     'Exhaustive within the listed names; effects are contained in a scratch folder owned by an unprivileged user.')

prop('C20', 'Neither a crash nor an error while saving damages what the user has',
     'If the process dies, or a file system call fails, at any point of an operation on workspaces, then every '
     'configuration file, every input and both selections have either their old or their new content, completely, '
     'and nothing that the operation is not about has changed. An operation that reports success has been done; one '
     'that fails while creating or copying leaves no incomplete object behind, and one that was interrupted can be '
     'repeated (what an interrupted creation or copy left incomplete can be deleted first).',
     ['crash_points', 'fault_sequences'],
     'a crash, a torn write, an error or a full disk at every file system step of 22 operations; thorough: two faults '
     'in a row',
     'Tests do not interrupt operations.',
     ['dedop/ui/workspace_manager.py'],
     [('replacement of files', 'dedop/ui/workspace_manager.py')],
     'exhaustive fault injection at every file system step of every operation on the real code',
     'Exhaustive over the steps of the listed operations; the crash model is process death (no reordering by the disk).')

prop('C21', 'Commands act on the named or else the current workspace and configuration',
     'Every command of the command line acts on the workspace and configuration named with its options, and otherwise '
     'on the current ones, whatever commands came before; where there is none the default is used or the command is '
     'refused. A command exits with zero exactly if it did what was asked, prints what there is, asks before it deletes '
     'unless told not to, and when refused has changed nothing. The run command processes exactly the inputs asked for '
     'into the configuration\'s output folder, or into the folder named, and ends with an error code if the run of an '
     'input fails.',
     ['histories', 'inputs'],
     'all histories of up to three commands out of about 110 from nothing, two from two filled starts (thorough: four '
     'and three), plus all option combinations of run with the real processor',
     'The stable tests cannot import the command line here, and sample single commands.',
     ['dedop/cli/main.py', 'dedop/ui/workspace_manager.py'],
     [('commands', 'dedop/cli/main.py'), ('selections', 'dedop/ui/workspace_manager.py')],
     'breadth-first state exploration of command histories on the real command line against a reference model',
     'Exhaustive within the stated alphabet and depth; the cate package, which is not installed, is replaced by a small '
     'stand-in for its command base classes.')

prop('C22', 'The web service does what it is asked, whatever the requests before',
     'Every request on workspaces, configurations, inputs and outputs has the effect it names and no other, whatever '
     'requests came before, and its answer describes the state after it and can be sent as JSON; a request that is '
     'refused changes nothing. The content of configuration files comes back as it was saved; positions (all, or '
     'those of the first and last record) and global attributes are those of the file named. A processing request gives the products of the processor run directly, '
     'and reports its progress from start to end.',
     ['histories', 'inputs'],
     'all histories of requests up to a depth (quick 3, thorough 4) over a finite alphabet, plus all listed files and '
     'processing requests',
     'The stable tests cannot import the web service here, and sample single requests.',
     ['dedop/webapi/websocket.py', 'dedop/ui/workspace_manager.py'],
     [('requests', 'dedop/webapi/websocket.py')],
     'breadth-first state exploration of request histories on the real service against a reference model',
     'Exhaustive within the stated alphabet and depth; transport (tornado) is not explored.')

prop('C23', 'Progress of nested tasks adds up and cancelling reaches all of them',
     'The progress seen by the outermost monitor is the work reported by all tasks, each scaled to its share of its '
     'parent, with messages led by the labels of the tasks, for every tree of nested tasks. Cancelling anywhere, and Ctrl-C at '
     'the console, is seen by every task of the tree, and every task that was started as a context is reported done, '
     'on errors too; the handler of Ctrl-C is the earlier one again afterwards. The console shows label, message and '
     'percentage of the last progress, in the form asked for.',
     ['programs', 'schedules'],
     'all task trees to depth three over a small alphabet of steps, and all console options',
     'The stable tests sample single monitors.',
     ['dedop/util/monitor.py'],
     [('child monitors', 'dedop/util/monitor.py ChildMonitor'), ('console', 'dedop/util/monitor.py ConsoleMonitor')],
     'exhaustive exploration of task trees on the real monitors against an arithmetic model',
     'Exhaustive within the stated trees.')

prop('C24', 'A notebook or editor is opened for exactly the files asked for',
     'A new notebook is a valid document, equal to the template but for the products it opens, which are the ones asked '
     'for in the order given, whatever characters their paths and the name of the workspace contain. It gets a new name '
     'in the notebooks folder of the workspace, no other notebook is changed, and all notebooks there are listed. The '
     'notebook server is started for that folder and notebook with the configured command, the editor for the file '
     'asked for, and a server that cannot be started, a workspace that does not exist or a folder that cannot be '
     'written is reported as an error.',
     ['inputs', 'histories', 'configurations'],
     '168 paths with unusual characters, 676 pairs of them, 7 workspace names; all histories of four steps out of 15 '
     '(thorough five); all launch commands with a real shell',
     'The stable tests do not open notebooks.',
     ['dedop/ui/workspace_manager.py', 'dedop/webapi/websocket.py', 'dedop/ui/data/notebooks/inspect-template.ipynb',
      'dedop/ui/data/notebooks/compare-template.ipynb'],
     [('notebooks from templates', 'dedop/ui/workspace_manager.py inspect_l1b_product, compare_l1b_products'),
      ('launching', 'dedop/ui/workspace_manager.py launch_notebook, open_file')],
     'exhaustive exploration of histories and of hostile paths on the real code, stand-ins for Jupyter and the editor',
     'Exhaustive within the listed names, templates and depth; characters special to a shell inside double quotes are '
     'not part of the launch commands explored.')

prop('C25', "The user's configuration file is read as a script, local over home",
     'A configuration value is the one assigned in the file of the working directory, else in the file of the home '
     'folder, else the default given; the files are ordinary Python scripts, whose functions see their variables, and a '
     'leading tilde in a path is the home folder. A file that cannot be read or fails counts as a whole as not there, '
     'with a warning, and does not prevent the program from running. A missing file in the home folder is created from '
     'the commented template, an existing one is never changed, and the command line keeps its workspaces and takes '
     'its processor as configured.',
     ['configurations', 'inputs'],
     'all pairs of 21 contents of the two files, five states of the home folder, one process each; the command line '
     'with all pairs of four contents and four placements of a processor factory',
     'The stable tests read one file and never the combination.',
     ['dedop/util/config.py', 'dedop/util/config-template.py', 'dedop/cli/main.py'],
     [('reading and merging', 'dedop/util/config.py get_config'), ('use', 'dedop/cli/main.py main')],
     'exhaustive exploration of the two-file state space, one fresh process per state, against a table model',
     'Exhaustive within the listed contents.')

prop('C26', 'Inspecting and comparing show the numbers of the product files',
     'An opened product gives the positions, times, waveforms (counts times scale factor), ranges, dimensions, variables '
     'and attributes of its file, and a comparison the difference first minus second of two products in the order '
     'given; what is no product, and products of different size, are refused. Every plot shows the variable, records '
     'and limits asked for (limits of zero too; without limits the whole range), or the difference. Plots are shown, or '
     'saved as one file each in the output folder or as one page each of the output document.',
     ['inputs', 'configurations'],
     'all shapes from a grid x two kinds x four contents, all pairs of them, all plots with all combinations of limits, '
     'variables and indices, three ways of output, and products of the real processor',
     'The stable tests cannot import these modules here; the others only open a file.',
     ['dedop/ui/inspect.py', 'dedop/ui/compare.py', 'dedop/ui/figurewriter.py'],
     [('inspector', 'dedop/ui/inspect.py L1bProductInspector'), ('comparator', 'dedop/ui/compare.py L1bProductComparator'),
      ('figures', 'dedop/ui/figurewriter.py FigureWriter')],
     'exhaustive enumeration of small products and plot options on the real code, reading back the figures drawn',
     'Exhaustive within the listed shapes and options; names removed from newer bokeh and matplotlib are put back by an '
     'adapter; sliders and the drawing itself are not part of it.')

prop('C27', 'A product tells what it covers, where it comes from and how it is laid out',
     'Both products carry over the global attributes of the input unchanged ("Not available" for a missing one; the '
     'product name with _BS_ or ____ for _A__) and give the times of the first and last record of the region, the '
     'ellipsoid of the run and the time they were made. Which variables a product has, with types, dimensions, units and '
     'attributes, depends on nothing but level and L1B format, the sizes of the dimensions only on the number of '
     'records and the configuration.',
     ['inputs', 'configurations', 'histories'],
     'each of the 19 attributes missing, alone and with ten values, eight product names; six times x six regions x two '
     'ellipsoids; seven passes x sixteen configurations; both formats and products, one processor for many files',
     NO_TEST + 'each attribute and variable is written by a line of its own, for each product.',
     ['dedop/proc/sar/processor.py', 'dedop/data/input/l1a/l1a_dataset.py', 'dedop/data/output/netcdf_writer.py',
      'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py', 'dedop/util/time.py'],
     [('attributes of the input', 'dedop/data/input/l1a/l1a_dataset.py L1AGlobals'),
      ('attributes of the products', 'dedop/proc/sar/processor.py L1BProcessor.process'),
      ('layout', 'dedop/data/output/netcdf_writer.py NetCDFWriter')],
     'exhaustive enumeration of attribute states, times, regions, passes and configurations on the real processor',
     'Exhaustive within the listed values; the first and last record of the region have a position.')


prop('C28', 'A point reflector is focused to its true distance, with full power',
     'If nothing but one point reflector on (or above, below or beside) a surface sends echoes back, the waveform of '
     'the record of that surface peaks where the distance between the record\'s satellite position and the reflector '
     'says, relative to the reported range at the middle of the window. Its power there is that of all pulses of every '
     'beam added in phase, and without masking each beam of the stack has its peak at the same place with the same power. '
     'This holds for every surface of every segment, however short, for any track, movement of the receive window and '
     'instrument, with both azimuth methods.',
     ['inputs', 'configurations'],
     'every surface of segments of 1 to 70 bursts x 7 tracks x 4 window movements x both azimuth methods; 4 to 64 pulses, '
     'zero padding 1, 2, 4, formats, masking, five instrument parameters',
     NO_TEST + 'the oracle is physics, independent of the code, and must hold at every place of a segment.',
     ['dedop/proc/sar/algorithms/azimuth_processing.py', 'dedop/proc/sar/algorithms/geometry_corrections.py',
      'dedop/proc/sar/algorithms/range_compression.py', 'dedop/proc/sar/algorithms/beam_angles.py',
      'dedop/proc/sar/algorithms/stack_gathering.py', 'dedop/proc/sar/algorithms/multilooking.py'],
     [('beam forming', 'dedop/proc/sar/algorithms/azimuth_processing.py AzimuthProcessingAlgorithm'),
      ('alignment of the beams', 'dedop/proc/sar/algorithms/geometry_corrections.py GeometryCorrectionsAlgorithm'),
      ('compression', 'dedop/proc/sar/algorithms/range_compression.py RangeCompressionAlgorithm')],
     'exhaustive enumeration of reflector positions, segment lengths, tracks and settings on the real processor, '
     'against the geometry',
     'Exhaustive within the listed values; 3 % of the power (15 % for a climbing satellite and the approximate method, '
     'whose beams are evenly spaced), half a sample plus 0.1 of the distance.')

prop('C29', 'Moving, mirroring or amplifying a pass changes the products correspondingly only',
     'A pass moved in longitude, mirrored at the equator, moved by days, with echoes amplified or turned in phase, with '
     'more receiver gain and correspondingly weaker echoes, or with other roll and yaw, gives products that differ in the '
     'corresponding way (longitude and x, y; latitude and z; time and day; waveform and stack power; gain, scale factors '
     'and sigma0 calibration; the pointing) and, up to rounding of the stored numbers, in nothing else.',
     ['inputs', 'configurations'],
     '6 passes x 7 kinds of change with 1 to 4 amounts x 7 (thorough: 39) configurations, all variables of both products',
     NO_TEST + 'it relates two runs, for every place, time and strength.',
     ['dedop/proc/sar/processor.py', 'dedop/proc/sar/algorithms/surface_location.py',
      'dedop/proc/sar/algorithms/multilooking.py', 'dedop/proc/sar/algorithms/sigma_zero_scaling.py',
      'dedop/proc/geo/lla2ecef.py', 'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py'],
     [('geometry', 'dedop/proc/sar/algorithms/surface_location.py SurfaceLocationAlgorithm'),
      ('power and gain', 'dedop/proc/sar/algorithms/multilooking.py MultilookingAlgorithm'),
      ('output', 'dedop/data/output/l1b_writer.py L1BWriter')],
     'exhaustive enumeration of passes, changes and configurations; both runs on the real processor are compared',
     'Exhaustive within the listed values; differences within the step of the stored numbers are accepted.')


def main():
    have = {p['id'] for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py'))}
    import re
    levels = {}
    for i in have:
        levels[i] = re.search(r"^LEVEL = '(\w+)'", open(os.path.join(HERE, 'checks', i + '.py')).read(), re.M).group(1)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in P:
            if p['id'] not in have:
                continue
            assert len(p['title']) <= 80, p['title']
            doc = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'],
                               'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}
            if p['observe']:
                doc['anchors']['observe_at'] = p['observe']
            fp.write(json.dumps(doc) + '\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, netCDF4"',
           'checks': [{'property': p['id'],
                       'quick_cmd': '/opt/venv/bin/python run.py %s quick' % p['id'],
                       'thorough_cmd': '/opt/venv/bin/python run.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': levels[p['id']], 'level_note': p['level_note']}
                      for p in P if p['id'] in have],
           'not_applicable': [],
           'notes': 'No hooks: every check drives /repo through its public interface; no build step is needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
