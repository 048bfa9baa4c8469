"""Writes properties.jsonl (the source of the property list)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': observe, 'hook_needed': None}})


RD = 'karabo_data/reader.py'
p('C01', 'Train-oriented reads return exactly what was recorded',
  'Reading a train by ID, by position or by iteration gives, for every selected source and key, exactly the samples '
  'recorded for that train (same values, shape and type): never samples of another train, source or key, and nothing '
  'for keys without data in that train. Iteration gives every train of the collection once, in increasing order. This '
  'holds whatever was read before, in whatever order, also when several iterations are interleaved or several threads '
  'read from the same collection.',
  ['histories', 'inputs', 'schedules', 'configurations'],
  'Every run layout (file splits, gaps, lost trains and messages, both index formats, padding), every history of reads, '
  'and every interleaving of readers.',
  'Tests read a few fixed mock files, mostly one read per opened file and a single thread; they never interleave '
  'iterators over runs with gaps.',
  [RD, 'karabo_data/read_machinery.py'],
  [('FileAccess.get_index and its cache', RD), ('TrainIterator._find_data dataset cache', RD),
   ('DataCollection.train_from_id', RD)],
  ['DataCollection.trains()', 'train_from_id()', 'train_from_index()'],
  [('_index_cache / _datasets_cache', 'indexes and datasets kept from earlier reads', RD)])
p('C02', 'Whole-source reads agree with what was recorded',
  'Reading one field of a source across a collection (labelled array with or without region of interest, lazy array, '
  'series, table, entry counts) gives every recorded sample of the selected trains exactly once, in train order, '
  'labelled with the right train, and nothing else.',
  ['histories', 'inputs', 'configurations'],
  'Every run layout, every selection history, every region of interest, every order in which lazy chunks are computed.',
  'Tests compare shapes for a handful of fixed mock runs without gaps; multi-file runs with missing entries are not '
  'tried.',
  [RD, 'karabo_data/read_machinery.py'],
  [('_find_data_chunks / contiguous_regions', RD), ('get_array, get_dask_array, get_series, get_data_counts', RD)],
  ['get_array()', 'get_dask_array()', 'get_series()', 'get_dataframe()', 'get_data_counts()'])
p('C03', 'Selections are set algebra and never change their parents',
  'Selecting, deselecting, selecting trains and joining collections give exactly the sources, keys and trains that the '
  'documented set algebra says, whatever the order and nesting of operations; selections never bring back what an '
  'earlier one removed. Every collection obtained earlier keeps its contents. Patterns and ranges which match nothing '
  'are refused.',
  ['histories', 'inputs'],
  'Every sequence of select / deselect / select_trains / union over every run layout.',
  'Tests apply one or two operations to one mock run; algebraic laws over long histories are not exercised.',
  [RD, 'karabo_data/read_machinery.py'],
  [('_expand_selection, _select_glob, union_selections', RD), ('select, deselect, select_trains, union', RD),
   ('_tid_to_slice_ix', 'karabo_data/read_machinery.py')],
  ['select()', 'deselect()', 'select_trains()', 'union()', 'keys_for_source()', 'train_ids'])
p('C04', 'Requiring all data yields exactly the complete trains',
  'Iterating with the requirement of complete data yields exactly those trains of the collection for which every '
  'selected source has data for every selected key, in order, whichever of the sources lost messages.',
  ['fault_sequences', 'inputs', 'histories'],
  'Every pattern of lost messages, lost trains, silent sources, file boundaries and selections.',
  'Tests use one file with one missing train.',
  [RD], [('_check_data_missing', RD), ('TrainIterator.__iter__', RD)], ['trains(require_all=True)'])
p('C05', 'Doubly recorded data is refused, and only that',
  'Opening or joining files in which some source is recorded in two different files for the same train is refused '
  'with an error, however many files there are, in whatever order they are listed or joined. Files that do not '
  'overlap in this way always open and join.',
  ['inputs', 'histories', 'configurations'],
  'Every arrangement of sources over files and every order of listing and joining.',
  'Tests check one pair of conflicting files.',
  [RD], [('_check_source_conflicts', RD)], ['RunDirectory()', 'union()'])
p('C06', 'Damaged or unreadable files are skipped, intact ones served in full',
  'When some files of a run cannot be used (truncated, empty, not HDF5, lacking required structure, unreadable, '
  'dangling link, failing while being opened) opening the run skips exactly those, reports them, and serves all '
  'data of the others; only when no usable file is left is opening refused with an error.',
  ['fault_sequences', 'inputs', 'crash_points'],
  'Every subset of files damaged in every way and every I/O failure while opening, in any listing order.',
  'One test opens a run with one unusable file; I/O errors at chosen points cannot be produced in unit tests.',
  [RD], [('DataCollection.from_paths', RD)], ['RunDirectory()'])
p('C07', 'Read errors never become wrong data',
  'When the storage fails while data is being read (I/O errors, at any point, once or repeatedly), a read either '
  'raises an error or returns exactly what was recorded, and once the storage works again the same objects give '
  'exactly what was recorded.',
  ['fault_sequences', 'histories'],
  'Every failing point of every read of every history, single and repeated failures.',
  'Tests never inject storage failures.',
  [RD], [('FileAccess.file, get_index, get_keys caches', RD), ('TrainIterator dataset cache', RD)],
  ['all read methods of DataCollection'])
p('C08', 'The run cache is transparent',
  'A run opened with the help of cached metadata behaves exactly as if it had been opened without: '
  'whatever opened, changed, added, replaced or deleted files (with visible size or time) since the cache was '
  'written, and whichever include pattern, collection or place of the cache was used to write it.',
  ['histories', 'fault_sequences', 'configurations'],
  'Every history of opens interleaved with changes of the run directory, and every stale, foreign or damaged cache.',
  'Tests write and read the cache once, and once with one outdated entry.',
  ['karabo_data/run_files_map.py', RD],
  [('RunFilesMap.load / get / save', 'karabo_data/run_files_map.py')], ['RunDirectory()', 'H5File()'],
  [('karabo_data_map.json', 'cached train IDs and sources per file', 'karabo_data/run_files_map.py')])
p('C09', 'Concurrent opens and crashes leave a correct cache or none',
  'When several processes open the same run at the same time, while files are replaced or added, and any of them '
  'crashes at any point, each of them that finishes serves correct data; every later open of the run, with whatever '
  'the others left behind, also serves correct data, and the cache under its final name is at every moment complete '
  'and valid or absent.',
  ['schedules', 'crash_points', 'fault_sequences'],
  'Every interleaving of openers at their file system operations, every crash point of every opener, every concurrent '
  'replacement of files.',
  'Tests are single process; interleavings and crash points cannot be chosen.',
  ['karabo_data/run_files_map.py', RD],
  [('atomic_dump', 'karabo_data/run_files_map.py'), ('fstat of the opened file in save', 'karabo_data/run_files_map.py')],
  ['RunDirectory()', 'the cache file'])
p('C10', 'Cache trouble never prevents opening a run',
  'If the cache cannot be read, contains garbage, or cannot be written (no permission, read-only or full file '
  'system, quota, I/O error, crash remains), opening the run still succeeds, serves correct data and leaves no '
  'partial cache or temporary file behind.',
  ['fault_sequences', 'inputs', 'crash_points'],
  'Every failing file system operation on the cache at every point, and every content of an existing cache file.',
  'Tests cover one permission error on one directory.',
  ['karabo_data/run_files_map.py'], [('load and save error handling, atomic_dump', 'karabo_data/run_files_map.py')],
  ['RunDirectory()'])
p('C11', 'Streaming delivers everything fed exactly once, in order, unaltered',
  'Each item fed to a streamer is delivered to exactly one request, in the order fed, with identical sources, keys, '
  'values, types, shapes and metadata, in either protocol version, whatever the number, speed and timing of clients, '
  'also when clients crash while waiting or connect late (a reply in flight to a crashed client may be lost with it).',
  ['schedules', 'fault_sequences', 'inputs'],
  'Every interleaving of feeder, server thread and clients, every delay, and every client crash point.',
  'Tests use one client and a handful of messages over a real socket, on whatever schedule occurs.',
  ['karabo_data/export.py'], [('ZMQStreamer.feed / _serialize, REPInterface.run', 'karabo_data/export.py')],
  ['ZMQStreamer', 'karabo_bridge.Client'], [('_buffer', 'bounded queue of serialised trains', 'karabo_data/export.py')])
p('C12', 'Feeding is bounded and always makes progress',
  'Feeding blocks exactly when as many items as the configured limit are waiting to be sent, so memory use is '
  'bounded; it resumes as soon as a client takes one. As long as clients keep asking, every feed finishes.',
  ['schedules', 'configurations', 'fault_sequences'],
  'Every queue limit, every interleaving of feeder, server and clients, every stall of a client.',
  'Tests never fill the queue.',
  ['karabo_data/export.py'], [('Queue(maxsize=maxlen)', 'karabo_data/export.py')], ['ZMQStreamer.feed()'])
p('C13', 'Serving files delivers all selected trains and then ends',
  'Serving a file or run streams the selected data of every train exactly once and in order to clients that keep '
  'asking; it ends by itself once everything was delivered, and stopping a streamer always returns, '
  'whatever clients are doing at that moment.',
  ['schedules', 'inputs', 'fault_sequences'],
  'Every interleaving of the end of the data with requests, slow or stalled or crashed clients, and every run layout.',
  'The test kills the server process after the first train; the end of the stream is never observed.',
  ['karabo_data/export.py'], [('serve_files, ZMQStreamer.stop, REPInterface.run', 'karabo_data/export.py')],
  ['serve_files()', 'ZMQStreamer.stop()'])
p('C14', 'Written files round-trip the selected data',
  'Writing a collection to a new file gives a file which passes validation, lists its data sources consistently and, when opened, holds exactly the selected '
  'sources, keys, trains and samples of the original, whatever was selected and whatever data is missing. If storage '
  'fails during writing the caller gets an error, and the original files are never changed.',
  ['inputs', 'histories', 'fault_sequences', 'crash_points'],
  'Every run layout and selection, and every failing or crashing point of the output.',
  'Tests write one fixed selection where no data is missing, and no write ever fails.',
  ['karabo_data/writer.py'], [('FileWriter', 'karabo_data/writer.py')], ['DataCollection.write()'])
p('C15', 'Virtual files and datasets show the selected data',
  'A virtual file or virtual dataset made from a collection shows exactly the samples, trains and indexes of the '
  'selected data, including across many sequence files, gaps and partial train selections, also after the original '
  'collection has been closed.',
  ['inputs', 'histories', 'configurations'],
  'Every run layout and selection history.',
  'Tests use one run without gaps.',
  ['karabo_data/writer.py', RD], [('VirtualFileWriter._assemble_data', 'karabo_data/writer.py')],
  ['write_virtual()', 'get_virtual_dataset()'])
p('C16', 'Validation reports every injected defect and passes clean runs',
  'Validating a file or run reports a problem for every unusable file, every index that refers outside its data, '
  'leaves gaps, overlaps or has the wrong length, every disordered train list and every wrong cache entry; it reports '
  'nothing for clean files and runs, and never fails with any other error.',
  ['inputs', 'fault_sequences'],
  'Every combination of defects at every position in every file, in runs with or without cache.',
  'Tests inject one defect at one position each in one mock file.',
  ['karabo_data/validation.py'], [('FileValidator, RunValidator, check_index_contiguous', 'karabo_data/validation.py')],
  ['karabo-data-validate', 'FileValidator', 'RunValidator'])
p('C17', 'Detector data is combined with the right module, train and pulse',
  'Data of a multi-module detector, as one array or train by train, holds for every module, train and pulse exactly the '
  'recorded samples at the right labels and fill values where a module has none; only the requested pulses are '
  'included. Arrays cover the trains with data from at least the required number of modules; going through the trains '
  'one by one gives those for which every module has data.',
  ['fault_sequences', 'inputs', 'configurations'],
  'Every pattern of modules losing trains, files split differently per module, every pulse selection and layout.',
  'Tests use one fixed mock run in which all modules have the same trains.',
  ['karabo_data/components.py'],
  [('MPxDetectorBase, AGIPD1M, LPD1M, DSSC1M', 'karabo_data/components.py')],
  ['get_array()', 'trains()', 'get_dask_array()'])
p('C18', 'Virtual CXI files present detector frames correctly',
  'In a virtual CXI file written for a detector, the entry of every frame and module holds exactly the recorded pixels, '
  'mask and gain of that module for that train and pulse, the fill value where the module has none, and the train, '
  'pulse and cell identifiers are those of the frame.',
  ['fault_sequences', 'inputs', 'configurations'],
  'Every pattern of modules losing trains, sequence splits, raw and corrected layouts and fill values.',
  'Tests check shapes of one mock run with all modules present.',
  ['karabo_data/write_cxi.py', 'karabo_data/components.py'],
  [('VirtualCXIWriter', 'karabo_data/write_cxi.py')], ['write_virtual_cxi()'])
p('C19', 'Stacked detector images behave like arrays of the recorded modules',
  'Stacking the modules of a train gives, for any sequence of indexing, slicing and conversion to an array, the same '
  'values as stacking recorded modules in an ordinary array with the fill value in the place of missing modules; '
  'modules are in the order of all the numbers in their names, and changing the data of one changes no other.',
  ['inputs', 'histories', 'fault_sequences'],
  'Every set of missing modules, every history of nested views, every axis, shape and type.',
  'Tests index one example in a few ways.',
  ['karabo_data/stacking.py'], [('stack_detector_data, StackView', 'karabo_data/stacking.py')],
  ['stack_detector_data()', 'stack_data()'])
p('C20', 'Streamed timestamps are consistent and leave caller data alone',
  'With generated timestamps switched on, every source in every message carries a timestamp equal to the time it was '
  'fed, with whole and fractional parts agreeing with it, unless it has one already; whatever the clock does, '
  'in either protocol version, and the data and metadata of the caller are never changed.',
  ['schedules', 'inputs', 'fault_sequences'],
  'Every clock value and jump, metadata given or not, either protocol.',
  'Tests use the real clock once.',
  ['karabo_data/export.py'], [('ZMQStreamer._serialize', 'karabo_data/export.py')], ['ZMQStreamer.feed()'])
p('C21', 'Reports describe the recorded run',
  'The overview of a collection, of a train and of a run directory or file list states exactly the trains, duration, '
  'sources, modules and frame counts that were recorded, for runs with lost trains, missing detector data and files of '
  'any kind.',
  ['inputs', 'fault_sequences', 'configurations'],
  'Every run layout, selection and directory content.',
  'Tests only check that the functions run, on one mock run.',
  [RD, 'karabo_data/lsxfel.py'], [('info, train_info, detector_info', RD), ('summarise_*', 'karabo_data/lsxfel.py')],
  ['DataCollection.info()', 'train_info()', 'detector_info()', 'lsxfel'])
p('C22', 'Opened files are released and reopened as needed',
  'Leaving the context of an opened file or run closes every data file it opened, also after errors in the body; '
  'the collection and those derived from it stay usable afterwards and give the same data. Derived collections, which '
  'share those files, refuse to act as a context.',
  ['histories', 'fault_sequences'],
  'Every history of reads, selections and closes, with or without storage errors.',
  'Tests check closing once after one read.',
  [RD], [('DataCollection.__exit__, FileAccess.close', RD)], ['with RunDirectory() / H5File()'])
p('C23', 'Finding a run by proposal and run number opens that run',
  'Opening a run by proposal and run number, in any accepted spelling, opens exactly the directory of that proposal, '
  'run and data kind wherever it is in the facility tree, and raises an error if there is none.',
  ['inputs', 'configurations', 'fault_sequences'],
  'Every facility tree, spelling of numbers, listing order and storage error while searching.',
  'Tests use one tree with one proposal.',
  [RD, 'karabo_data/read_machinery.py'], [('open_run', RD), ('find_proposal', 'karabo_data/read_machinery.py')],
  ['open_run()'])
p('C26', 'Threads sharing a collection each get exactly the recorded data',
  'Several threads may read from, select from, iterate over and write out the same collection (or collections sharing files, or detector data from them) at the '
  'same time, including the worker threads of dask computing lazy arrays. Each gets exactly what it would get alone, also '
  'where files are opened and indexed for the first time while other threads read.',
  ['schedules', 'histories', 'configurations'],
  'Every interleaving of the threads at each line of the code, every history of reads and selections of each thread.',
  'Tests use one thread; a race between threads shows up in one schedule of thousands.',
  [RD, 'karabo_data/read_machinery.py'],
  [('FileAccess caches: _index_cache, _keys_cache, file', RD), ('get_dask_array', RD), ('TrainIterator', RD)],
  ['every reading and selecting method of DataCollection'],
  [('FileAccess.file, _index_cache, _keys_cache, train_ids', 'state filled on first use, shared by all collections', RD)])
G2 = 'karabo_data/geometry2/__init__.py'
p('C24', 'A detector geometry keeps every tile in its place, in files, images and threads',
  'A detector geometry (AGIPD, LPD, DSSC) made from quadrant positions, an XFEL HDF5 file or a CrystFEL file has each tile '
  'where that source says, in metres. Pixel positions, positions of data coordinates and distortion arrays all agree with it. '
  'Written as a CrystFEL file, each panel is in the same place under the rules of that format, and loading the file gives the '
  'same geometry; if storage fails, an error is raised or the file is complete. Assembled images hold each pixel of each '
  'module in its place, with NaN (0 for integers) elsewhere, or leave the rest of a given output array as it was. Using a '
  'geometry, once or often, in one thread or several, never changes it or the data given.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'Every arrangement of modules, history of use (also of several threads and of arrays used again), and every failure of '
  'storage while geometry files are read and written.',
  'Tests check a few fixed geometries, each used once, and files which are read and written without failure.',
  [G2, 'karabo_data/geometry2/crystfel_fmt.py'],
  [('DetectorGeometryBase', G2), ('write_crystfel_geom', 'karabo_data/geometry2/crystfel_fmt.py')],
  ['AGIPD_1MGeometry', 'LPD_1MGeometry', 'DSSC_1MGeometry', 'position_modules_fast()', 'get_pixel_positions()',
   'data_coords_to_positions()', 'to_distortion_array()', 'write_crystfel_geom()', 'from_crystfel_geom()'],
  [('_snapped_cache', 'pixel grid kept after its first use, shared by threads', G2)])
p('C25', 'Exported and displayed images are the ones asked for',
  'Exporting frame number i of a data file (either file format) or array to CBF gives a file with exactly that frame, and '
  'the header entries given; a frame that does not exist is refused. If reading or writing fails an error is raised, or '
  'the file is complete; exporting again gives the right file, and the data file is never changed. The quick viewer shows '
  'the frame at its position after every history of moving, setting positions and replacing data, and refuses positions '
  'and data it has no frame for.',
  ['inputs', 'histories', 'fault_sequences', 'crash_points'],
  'Every frame, type and file format, history of a viewer, and every failure of storage or crash while exporting.',
  'Tests export one image, without failures, and move a viewer by one step.',
  ['karabo_data/utils.py'], [('hdf5_to_cbf, numpy_to_cbf, QuickView', 'karabo_data/utils.py')],
  ['hdf5_to_cbf()', 'numpy_to_cbf()', 'QuickView'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
