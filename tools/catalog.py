"""Catalogue of the properties: writes properties.jsonl and MANIFEST.json.

    python3 tools/catalog.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, text, why, files, mechanism, observe=()):
    return {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': None,
        },
    }


PROPERTIES = [
    p('C01', 'Splitting a dataset files every row once, under its own key',
      'When a dataset is split into partitions, by integer keys or by date, '
      'in memory or lazily, the partitions are contiguous, adjacent, '
      'non-empty and cover all rows exactly once; each row is filed in the '
      'partition named after its own key values and each key yields a single '
      'partition. A dataset whose keys are not sorted is rejected with an '
      'error, a sorted one never is.',
      ['inputs', 'configurations'],
      'for every sequence of key values or instants (any 64-bit keys, any '
      'order), every number of keys, every date resolution, lazy or not',
      'tests split a few fixed, already sorted datasets; the statement is '
      'about every ordering and every key value',
      ['zcollection/partitioning/abc.py', 'zcollection/partitioning/date.py',
       'zcollection/partitioning/sequence.py'],
      [('key detection and monotony check',
        'partitioning.abc.unique_and_check_monotony, sequence._unique, '
        'date._unique'),
       ('naming and slicing', 'Partitioning.index_dataset/split_dataset')],
      ['Partitioning.split_dataset', 'Partitioning.index_dataset']),
    p('C02', 'Partition names and partition keys determine each other',
      'The directory name of a partition and its key determine each other: '
      'parsing the path of a partition gives back the key it was written '
      'for, joining, encoding and decoding are mutually inverse, and paths '
      'that are not partitions of the scheme are refused. Partitions are '
      'listed in increasing order of their keys. This holds whatever the '
      'directory the collection lies in is called, and nothing is ever '
      'written outside of that directory.',
      ['inputs', 'configurations'],
      'for every integer key or date, every date resolution, every base '
      'directory',
      'tests parse a handful of names below plain directories',
      ['zcollection/partitioning/abc.py', 'zcollection/partitioning/date.py',
       'zcollection/partitioning/sequence.py', 'zcollection/merging/__init__.py',
       'zcollection/collection/abc.py'],
      [('codec', 'Partitioning.parse/join/encode/decode'),
       ('listing', 'partitioning.abc.list_partitions, '
        'ReadOnlyCollection.partitions')],
      ['Partitioning.parse', 'Collection.partitions']),
    p('C03', 'Inserted data is loaded back exactly; overwriting is local',
      'After an insertion, loading the collection (lazily or not, from the '
      'same or a reopened instance) returns exactly the inserted rows, in key '
      'order, for every variable. An insertion without a merge strategy '
      'replaces the partitions it touches and leaves all the other partitions '
      'as they were. A variable absent from the inserted dataset is filled '
      'with its fill value. Unsorted data, a dataset holding an undeclared '
      'variable and, when the validation is requested, a dataset whose '
      'metadata differ from the declared ones are refused with an error and '
      'nothing is stored.',
      ['inputs', 'histories', 'configurations'],
      'for every content, every distribution of rows over partitions, every '
      'number of partitions written at once, every chunking, every sequence '
      'of insertions',
      'tests insert one fixed dataset; the statement is about every content '
      'and every split of rows between insertions',
      ['zcollection/collection/__init__.py', 'zcollection/collection/detail.py',
       'zcollection/storage.py', 'zcollection/merging/__init__.py',
       'zcollection/collection/abc.py'],
      [('write', 'Collection.insert, detail._insert, merging.perform, '
        'storage.write_zarr_group'),
       ('read', 'ReadOnlyCollection.load, storage.open_zarr_group')],
      ['Collection.insert', 'Collection.load', 'Collection.partitions']),
    p('C04', 'Merging a time series replaces only the re-inserted period',
      'Merging new samples into an existing time series keeps every existing '
      'sample dated outside of the inserted period(s), replaces those dated '
      'inside, contains every inserted sample once, stays sorted, and keeps '
      'all the variables aligned. With a tolerance, the inserted series is cut '
      'into periods at gaps longer than the tolerance and existing samples '
      'falling in such gaps survive. The existing dataset given to the merge '
      'is not altered.',
      ['inputs'],
      'for every pair of sorted series, overlapping or not, and every '
      'tolerance',
      'tests merge fixed regular series; boundary coincidences and gaps are '
      'sampled, not decided',
      ['zcollection/merging/time_series.py', 'zcollection/merging/__init__.py',
       'zcollection/merging/period.py'],
      [('merge', 'merging.time_series.merge_time_series')],
      ['merge_time_series', 'Collection.insert']),
    p('C05', 'Periods behave as closed time intervals',
      'Period objects agree with the set of instants they denote: containment, '
      'intersection, union, adjacency, ordering, merging, shifting, gap and '
      'comparison predicates give the answer of the corresponding set of '
      'instants, including empty, touching and single-instant periods.',
      ['inputs'],
      'for every pair of periods, of any position and length, inclusive or '
      'not',
      'tests compare a few hand-written periods; Allen relations have many '
      'boundary cases',
      ['zcollection/merging/period.py'],
      [('algebra', 'merging.period.Period')],
      ['Period']),
    p('C06', 'A failed modification spares the rest and can be repeated',
      'When a file operation fails at any point of an insertion, or the merge '
      'function raises, the insertion reports the failure unless it has '
      'nevertheless succeeded; every partition then holds its complete former '
      'content or its complete new content, a partition that could not be '
      'created does not appear, the other partitions and the configuration '
      'are byte for byte unchanged, and listing and loading keep working. '
      'When update, drop_partitions, add_variable or drop_variable fail '
      'likewise, or when the process dies during an insertion, an update or a '
      'deletion of partitions, nothing is altered but the partitions (and '
      'variables) being worked on; validate_partitions reports those that '
      'became unreadable and can remove them; a failed add_variable leaves '
      'the collection as it was. Repeating the operation gives the result '
      'of an uninterrupted one.',
      ['crash_points', 'fault_sequences', 'inputs', 'configurations'],
      'for every file operation (creation of a directory, creation, '
      'truncation or writing of a file, deletion, renaming) made below the '
      'collection on a local file system during the modification, failing '
      'once or being the last one of the process; any content',
      'tests never make the storage fail; the states reached depend on which '
      'of some hundred file operations is hit',
      ['zcollection/collection/__init__.py', 'zcollection/collection/detail.py',
       'zcollection/merging/__init__.py', 'zcollection/storage.py'],
      [('creation of a partition', 'collection.detail._insert'),
       ('replacement of a partition', 'merging._update_fs, merging._rename'),
       ('in place writing', 'storage.update_zarr_array, add_zarr_array, '
        'del_zarr_array'),
       ('configuration', 'Collection._write_config, add_variable, '
        'drop_variable'),
       ('detection', 'Collection.validate_partitions')],
      ['Collection.load', 'Collection.partitions', 'files']),
    p('C07', 'Update writes the results of the function, where asked only',
      'After update, each selected partition holds, for the updated '
      'variables, exactly what the user function returned for it (trimmed of '
      'the overlap when asked), aligned with its rows; every other variable '
      'and every unselected partition is unchanged. The function sees exactly '
      'the partition and the neighbours within depth among the selected '
      'partitions, with partition_info locating the partition. This does not '
      'depend on how partitions are batched, and the arguments of the caller '
      'are not altered.',
      ['inputs', 'configurations'],
      'for every content, every selection of partitions, every result of the '
      'function, every depth, lazy or not, every number of batches',
      'tests update constant values; misplaced or swapped results would go '
      'unnoticed',
      ['zcollection/collection/__init__.py', 'zcollection/collection/detail.py',
       'zcollection/storage.py', 'zcollection/dask_utils.py'],
      [('update', 'Collection.update, detail._wrap_update_func*, '
        'storage.update_zarr_array'),
       ('overlap', 'detail._load_dataset_with_overlap')],
      ['Collection.update', 'Collection.load']),
    p('C08', 'map and map_overlap present each partition with its neighbours',
      'map and map_overlap call the function once per selected partition, in '
      'key order, and pair each result with the key of that partition. The '
      'dataset handed over holds exactly the rows of the partition (map), or '
      'of the partition and its neighbours within depth among the selected '
      'partitions (map_overlap), for the selected variables; partition_info '
      'locates the partition in it.',
      ['inputs', 'configurations'],
      'for every content, selection, depth, bag partitioning, lazy or not',
      'tests use one collection and depth 0 or 1 without selections',
      ['zcollection/collection/abc.py', 'zcollection/collection/detail.py'],
      [('map', 'ReadOnlyCollection.map/map_overlap'),
       ('overlap', 'detail._load_dataset_with_overlap')],
      ['ReadOnlyCollection.map', 'ReadOnlyCollection.map_overlap']),
    p('C09', 'Filters select exactly the partitions that satisfy them',
      'A filter, given as a Python expression over the partition keys or as a '
      'callable, selects exactly the partitions whose key satisfies it, for '
      'listing and for loading, with or without lock; an empty selection '
      'loads nothing; a name that is not a key is an error. '
      'selected_variables restricts the variables loaded and nothing else.',
      ['inputs', 'configurations'],
      'for every predicate over the partitions and every subset of variables',
      'tests apply a few filters on one collection',
      ['zcollection/collection/abc.py', 'zcollection/expression.py',
       'zcollection/storage.py'],
      [('filters', 'ReadOnlyCollection.partitions/_is_selected, '
        'expression.Expression'), ('load', 'ReadOnlyCollection.load')],
      ['Collection.partitions', 'Collection.load']),
    p('C10', 'Dropping partitions removes the selected ones and nothing else',
      'drop_partitions removes exactly the partitions selected by the filter '
      'and, when a timedelta is given, created longer ago than it (in any time '
      'zone); it returns their paths; every other file of the collection '
      'remains byte for byte, and dropped partitions can be inserted again.',
      ['inputs', 'configurations'],
      'for every selection, every age of the partitions, every time zone',
      'tests drop everything or one fixed selection, in the time zone of the '
      'machine',
      ['zcollection/collection/__init__.py'],
      [('drop', 'Collection.drop_partitions')],
      ['Collection.drop_partitions', 'Collection.partitions']),
    p('C11', 'Adding or dropping a variable touches that variable only',
      'add_variable declares the variable and creates it, entirely masked, in '
      'every partition with the right shape; drop_variable removes it from the '
      'declaration and from every partition. In both cases the files of the '
      'other variables do not change, a reopened collection agrees, and '
      'further insertions work. A refused request (existing or unknown '
      'variable, missing dimension, partition key, axis or immutable variable) '
      'changes nothing. Empty collections are supported.',
      ['inputs', 'histories'],
      'for every content, every number of partitions (none included), every '
      'shape and fill value',
      'tests add and drop one variable of one non-empty collection',
      ['zcollection/collection/__init__.py', 'zcollection/storage.py',
       'zcollection/meta.py', 'zcollection/collection/abc.py'],
      [('add', 'Collection.add_variable, storage.add_zarr_array'),
       ('drop', 'Collection.drop_variable, storage.del_zarr_array')],
      ['Collection.add_variable', 'Collection.drop_variable']),
    p('C12', 'A read-only collection never modifies the storage',
      'Through a collection opened read-only (the default), every operation '
      'that would modify the storage (insert, update, drop_partitions, '
      'add_variable, drop_variable, validate_partitions with fix) is refused '
      'with io.UnsupportedOperation, every reading operation works, and not a '
      'byte of the collection changes, whatever the sequence of operations.',
      ['histories'],
      'for every sequence of public operations, with valid or corrupt '
      'partitions',
      'tests try each method once on a healthy collection and never compare '
      'the storage',
      ['zcollection/collection/__init__.py', 'zcollection/collection/abc.py'],
      [('mode', 'Collection._read_only_mode, '
        'Collection._unsupported_operation')],
      ['Collection']),
    p('C13', 'A view follows its reference and never modifies it',
      'A view presents, for the partitions it holds, the variables of its '
      'reference collection and its own. Creating it, adding, updating and '
      'dropping variables, loading, mapping and synchronizing never modify a '
      'byte of the reference. A variable added to a view is masked everywhere '
      'until it is updated; updates write exactly the results of the function '
      'where asked. After the reference has changed, is_synced tells it, and '
      'sync realigns the view: values of the partitions whose axis is '
      'unchanged, or only extended, are kept, the rest is masked, partitions '
      'missing from the view are created with their variables. A reopened '
      'view, even moved to another directory, is the same. Refused requests change nothing.',
      ['inputs', 'histories', 'configurations'],
      'for every content, every subset of partitions, every sequence of '
      'changes of the reference, lazy or not',
      'tests synchronize one view after one change and do not compare values',
      ['zcollection/view/__init__.py', 'zcollection/view/detail.py',
       'zcollection/convenience/view.py'],
      [('variables', 'View.add_variable/drop_variable/update'),
       ('synchronization', 'View.sync/is_synced, view.detail._sync'),
       ('read', 'View.load/map/map_overlap, view.detail._load_one_dataset')],
      ['View']),
    p('C14', 'An index query designates exactly the indexed rows',
      'The slices returned by a query of an index cover, in each partition, '
      'exactly the rows covered by an indexed interval whose columns satisfy '
      'the query (values or lists of values, combined by and, or, xor, '
      'and_not), each row once and in order, whether intervals are disjoint, '
      'touching, overlapping or nested. Updating an index replaces all that it '
      'held about the partitions processed and leaves the others; a reopened '
      'index gives the same answers.',
      ['inputs', 'histories'],
      'for every list of intervals and column values, every query, every '
      'sequence of updates',
      'tests query one regular index of disjoint intervals',
      ['zcollection/indexing/abc.py'],
      [('query', 'Indexer.query/_table_2_indexer'),
       ('update', 'Indexer._update')],
      ['Indexer.query', 'Indexer.update']),
    p('C15', 'Loading through an indexer gives exactly the designated rows',
      'Loading a collection or a view with an indexer returns the rows its '
      'slices designate, partition by partition in key order and slice by '
      'slice in the order given, restricted to the partitions selected by the '
      'filter, for the selected variables only; nothing is loaded when no row '
      'can be designated.',
      ['inputs', 'configurations'],
      'for every indexer over the stored partitions, every content, filter '
      'and selection of variables, lazy or not',
      'tests load with one indexer covering whole partitions',
      ['zcollection/collection/abc.py', 'zcollection/collection/detail.py',
       'zcollection/view/__init__.py', 'zcollection/view/detail.py'],
      [('collection', 'ReadOnlyCollection.load, build_indexer_args, '
        'detail._load_and_apply_indexer'),
       ('view', 'View.load, view.detail._load_one_dataset')],
      ['Collection.load', 'View.load']),
    p('C16', 'Reopening a collection restores its whole description',
      'A reopened collection has the axis, partitioning (variables, '
      'resolution, binary types), variables (type, dimensions, fill value, '
      'compressor, filters, attributes), dataset attributes, chunks and block '
      'size limit it was created with, as modified by the later additions and '
      'removals of variables; opening a collection writes nothing to it. '
      'Everything loaded from it (or from a view on it) carries the declared '
      'attributes, types, dimensions, fill values and codecs. '
      'Creating a collection or a view over anything that exists, or a '
      'collection with an unknown axis or key, is refused and writes '
      'nothing.',
      ['inputs', 'histories', 'configurations'],
      'for every description and every history of additions and removals',
      'tests reopen one fixed description',
      ['zcollection/meta.py', 'zcollection/collection/__init__.py',
       'zcollection/partitioning/abc.py', 'zcollection/partitioning/registry.py',
       'zcollection/partitioning/sequence.py'],
      [('configuration', 'Collection._write_config/from_config, '
        'meta.*.get_config/from_config, partitioning.get_codecs')],
      ['open_collection']),
    p('C17', 'Partitions are only modified while the lock is held',
      'Whatever the pace at which the workers start and end their tasks, and '
      'whether a file operation fails or not, every modification of the '
      'partitions of a collection or of a view, and of the variables without '
      'the partitioned dimension (insert, update, drop_partitions, '
      'add_variable, drop_variable, validate_partitions with fix; creation, '
      'add_variable, update, drop_variable and sync of a view), takes place '
      'while its synchronizer is held; the synchronizer is not acquired again '
      'while it is held, and is released in the end, after the last task of '
      'the operation. partitions(lock=True) lists the partitions while it is '
      'held and has released it when the caller receives the first one.',
      ['schedules', 'fault_sequences', 'configurations'],
      'for every start of the tasks, as soon as they are submitted or when '
      'awaited, failure of any file operation, remaining tasks running before '
      'or after the failure is reported',
      'the tests run one operation at a time and do not observe when the lock '
      'is held; the outcome depends on the pace of the workers',
      ['zcollection/storage.py', 'zcollection/collection/__init__.py',
       'zcollection/collection/abc.py', 'zcollection/view/__init__.py',
       'zcollection/dask_utils.py'],
      [('transactions', 'storage.execute_transaction'),
       ('tasks', 'dask_utils.delayed_map, Collection.insert/update/'
        'drop_partitions/add_variable/drop_variable, View.*'),
       ('listing', 'ReadOnlyCollection.partitions')],
      ['execute_transaction', 'delayed_map', 'partitions']),
    p('C18', 'A copy is faithful and leaves its source alone',
      'Copying a collection, to the same or another file system, yields a '
      'collection with the same description and exactly the selected '
      'partitions and immutable variables; the source is not modified, and '
      'later changes of the copy do not affect it.',
      ['inputs', 'configurations'],
      'for every content and selection, none included, every number of '
      'batches, same or different file system',
      'tests copy one collection entirely',
      ['zcollection/collection/__init__.py', 'zcollection/fs_utils.py'],
      [('copy', 'Collection.copy, fs_utils.copy_tree/copy_files')],
      ['Collection.copy']),
    p('C19', 'Dataset operations keep rows, masks and variables together',
      'Selecting, deleting, concatenating, merging, dropping and adding on '
      'datasets give for every variable the rows that the operation denotes, '
      'in order, aligned across variables, for eager and lazy arrays; '
      'variables without the dimension concerned are left alone; inconsistent '
      'requests are refused and leave the dataset unchanged.',
      ['inputs', 'configurations'],
      'for every content, index, slice or mask, eager or lazy',
      'tests use one small dataset per operation',
      ['zcollection/dataset.py', 'zcollection/variable/abc.py',
       'zcollection/variable/array.py',
       'zcollection/variable/delayed_array.py'],
      [('datasets', 'Dataset.isel/delete/concat/merge/select_vars'),
       ('variables', 'variable.Array, variable.DelayedArray')],
      ['Dataset']),
    p('C20', 'Missing values are masked, and nothing else is',
      'A variable that has a fill value reads as a masked array, masked '
      'exactly where its cells hold the fill value, whichever way it is read '
      '(values, data, indexing, compute, to_dict) and whatever it went '
      'through: persisting (compressed or not), computing, rechunking, '
      'selecting, concatenating with variables in any of these forms, '
      'renaming, duplicating, assigning its own values, filling. Masked '
      'arrays given to a variable that is inserted, or returned by an update '
      'function with any fill value of their own, are masked at the same '
      'places once loaded. A variable without fill value is not masked. A '
      'compressed array gives, for indexing, arithmetic, comparison, '
      'concatenation and rechunking, what the array it was made from gives.',
      ['inputs', 'histories', 'configurations'],
      'for every content and mask, fill value given as a Python or NumPy '
      'number or not at all, division into blocks and sequence of operations',
      'tests read one array after one operation; losing a mask needs a '
      'combination (persisted with unpersisted, compressed with plain, one '
      'block or several)',
      ['zcollection/variable/array.py',
       'zcollection/variable/delayed_array.py', 'zcollection/variable/abc.py',
       'zcollection/compressed_array.py', 'zcollection/dataset.py',
       'zcollection/storage.py'],
      [('fill values of variables', 'Array, DelayedArray: values, data, '
        '__getitem__, fill, persist; _as_numpy_array, _as_dask_array'),
       ('compressed arrays', 'CompressedArray, Dataset.persist'),
       ('stored masks', 'storage.update_zarr_array')],
      ['Variable.values', 'Variable.data', 'Collection.load']),
    p('C21', 'Results do not depend on how the work is distributed',
      'Loading (with or without an indexer), mapping, validating and '
      'comparing, as well as insertions, updates, removals, copies and '
      'synchronizations, on collections and on views, give the same results '
      'and the same stored content whatever the number of workers, the number '
      'of batches, and the order in which the tasks are executed and seen to '
      'complete. Tasks that may run at the same time never modify the same '
      'file.',
      ['schedules', 'configurations', 'inputs'],
      'for every order of execution or completion of the tasks, 1-3 workers, '
      'every number of batches, any content',
      'the tests observe the one order that their cluster happens to produce',
      ['zcollection/collection/__init__.py', 'zcollection/collection/abc.py',
       'zcollection/collection/detail.py', 'zcollection/view/__init__.py',
       'zcollection/view/detail.py', 'zcollection/dask_utils.py',
       'zcollection/merging/__init__.py'],
      [('distribution', 'dask_utils.split_sequence, delayed_map, '
        'storage.execute_transaction'),
       ('loading', 'ReadOnlyCollection.load, View.load'),
       ('temporary directories', 'merging._update_fs')],
      ['split_sequence', 'execute_transaction', 'load', '_update_fs']),
    p('C22', 'Variables without the partitioned dimension are kept once',
      'Variables that do not span the partitioned dimension keep the values of '
      'the first accepted insertion: they come with every load, map, '
      'map_overlap and update that selects them, whatever the partitions '
      'selected, later insertions, removals of partitions or reopening; they '
      'cannot be dropped; a refused insertion does not set them; they are not '
      'partitions.',
      ['inputs', 'histories'],
      'for every content, every selection of partitions, depth and history of '
      'insertions and removals',
      'tests load such a collection once',
      ['zcollection/collection/__init__.py', 'zcollection/collection/abc.py',
       'zcollection/collection/detail.py'],
      [('write', 'Collection.insert, _write_immutable_dataset'),
       ('read', 'ReadOnlyCollection.load, detail._load_dataset, '
        'detail._load_dataset_with_overlap')],
      ['Collection.load', 'Collection.map_overlap', 'Collection.update']),
    p('C23', 'Datasets are exchanged with xarray and Zarr without loss',
      'A lazy dataset converted to xarray (without decoding of the fill '
      'values) and back, built from an xarray dataset, written to a Zarr group '
      'and read back, copied, or restricted to some variables keeps the '
      'names, values, dimensions, attributes and types (dates become '
      'datetime64[ns] in xarray) of all its variables; the fill value, the '
      'compressor and the filters given by the encoding of an xarray variable '
      'become those of the variable. Inserting an xarray dataset stores what '
      'inserting the same zcollection dataset stores.',
      ['inputs', 'configurations'],
      'for every content, every subset of attributes, compressor, filters and '
      'fill value, every date unit',
      'tests convert one dataset twice and compare the result with itself',
      ['zcollection/dataset.py', 'zcollection/variable/abc.py',
       'zcollection/storage.py', 'zcollection/convenience/collection.py'],
      [('xarray', 'Dataset.from_xarray, Dataset.to_xarray, '
        'Variable.to_xarray'),
       ('Zarr groups', 'Dataset.to_zarr, storage.write_zarr_group, '
        'storage.open_zarr_group')],
      ['Dataset.to_xarray', 'Dataset.from_xarray', 'Dataset.to_zarr',
       'storage.open_zarr_group', 'Collection.insert']),
    p('C24', 'A failed modification of a view harms neither it nor its source',
      'When a file operation fails once at any point of an addition or deletion of '
      'a variable, an update or a synchronization of a view on a local file '
      'system, or the process dies during an addition, a deletion or an '
      'update, the reference collection, the other variables and the other '
      'partitions of the view are byte for byte unchanged; the view can be '
      'opened again, and declares the variables its configuration lists; a '
      'failed (not killed) addition leaves the view as it was; a failed '
      'synchronization leaves the view reported as not synchronized. '
      'Repeating the operation gives the result of an uninterrupted one, '
      'except that a partition whose synchronization was interrupted may come '
      'back with its view variables masked.',
      ['crash_points', 'fault_sequences', 'inputs', 'configurations'],
      'for every file operation made below the view during the modification, '
      'failing once or being the last one of the process; any content',
      'tests never make the storage of a view fail',
      ['zcollection/view/__init__.py', 'zcollection/view/detail.py',
       'zcollection/storage.py'],
      [('variables', 'View.add_variable, View.drop_variable, '
        'View._write_config'),
       ('update', 'View.update, detail._wrap_update_func, '
        'storage.update_zarr_array'),
       ('synchronization', 'View.sync, View.is_synced, detail._sync, '
        '_sync_partition, _extend_partition')],
      ['View.add_variable', 'View.drop_variable', 'View.update',
       'View.sync', 'View.is_synced']),
]

CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10',
           'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21',
           'C22', 'C23', 'C24']
NOT_APPLICABLE = {}

NOTE = ('Every feasible path of the listed functions within the stated bounds '
        'is executed on z3 terms; each assertion is a solver query over all '
        'the values of the path; counterexamples are replayed on the real '
        'software before being reported. Trusts z3, the symbolic array layer '
        '(cross-checked by replaying sampled paths) and the synchronous '
        'stand-in for dask.distributed. Nothing is claimed outside of the '
        'bounds.')


def main():
    ids = [x['id'] for x in PROPERTIES]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as stream:
        for x in PROPERTIES:
            assert len(x['title']) <= 80, x['title']
            stream.write(json.dumps(x) + '\n')
    py = '/opt/venv/bin/python check.py'
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python check.py --selftest',
        'checks': [{
            'property': i,
            'quick_cmd': f'{py} {i} --tier quick',
            'thorough_cmd': f'{py} {i} --tier thorough',
            'technique': 'bounded symbolic execution of the real Python code '
            'with z3 (path-exhaustive, replayed counterexamples)',
            'level': 'other',
            'level_note': NOTE,
        } for i in ids if i in CLAIMED],
        'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE[i]}
                           for i in ids if i not in CLAIMED],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as stream:
        json.dump(manifest, stream, indent=1)
        stream.write('\n')


if __name__ == '__main__':
    main()
