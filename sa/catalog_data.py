"""The properties: statement, quantifier, anchors, technique."""
from catalog import prop, na, AI, TRUST

prop('C01', 'Read-only configuration values cannot be changed or removed',
     'Once a configuration key has been marked read-only, every attempt to set or unset it, directly or through a merge, fails with the documented '
     'read-only error and leaves its value and description unchanged, and no operation ever removes a read-only mark.',
     ['histories', 'inputs'], 'every sequence of operations on a configuration block and every key',
     'Unit tests mark one or two keys and try one setter; the guarantee is about every member that touches the stores and every order of calls.',
     ['vital/config/config_block.cxx', 'vital/config/config_block.h'],
     [('i_set_value / unset_value test the mark before writing', 'vital/config/config_block.cxx'), ('mark_read_only', 'vital/config/config_block.cxx')],
     AI + ': guard-dominates-store', 'All paths of all members of the class, private stores named nowhere else. ' + TRUST)

prop('C02', 'A configuration view acts on its parent under the qualified key',
     'Every keyed operation on a view of a configuration block (get, set, unset, query, description, read-only mark, source location) has exactly the '
     'effect and result of the same operation on the parent block with the key prefixed by the block name and the separator, and a root block never '
     'consults another block.',
     ['histories', 'inputs'], 'every keyed operation, key and nesting depth of views',
     'Tests exercise set/get on one view; forwarding has to be right for each operation and argument.',
     ['vital/config/config_block.cxx', 'vital/config/config_block.h'],
     [('each member tests m_parent and forwards', 'vital/config/config_block.cxx')],
     AI + ': forwarding conformance', TRUST)

prop('C05', 'Configuration syntax errors are never silently ignored',
     'Each line of a configuration file is either acted upon exactly once, or recorded as an error, or stops the parse with an exception; a file is '
     'accepted only if no error was recorded, every block that was opened was closed, and every file it names could be opened. Once recorded, an error '
     'is never cleared.',
     ['inputs'], 'every configuration file, including nested includes',
     'Tests parse a handful of files; the guarantee is about every malformed text and nesting.',
     ['vital/config/config_parser.cxx'],
     [('error latch, checked at end of the outermost file', 'vital/config/config_parser.cxx'), ('token classification', 'vital/config/config_parser.cxx')],
     AI + ': per-iteration effect accounting', TRUST)

prop('C06', 'Each configuration directive has exactly its documented effect',
     'What a line does follows from its tokens: it is an include, the opening or closing of a block, an entry, a local definition or an error, and nothing '
     'else. An entry stores the macro-expanded text (placed below the directory of the file for a relative path) under the key made of the open blocks and the '
     'name, records file and line, and marks it read-only exactly when the attribute is given; opening and closing blocks saves and restores the context; '
     'an include is expanded, looked up in the search path and then in the directories of the including files, innermost first, and required to be an '
     'existing regular file before it is processed; a local definition binds its expanded text. A new parser starts without errors and knows the four kinds of macro.',
     ['inputs'], 'every configuration file and search path',
     'Tests look at a few files with shallow nesting and no read-only or relative-path combinations across includes.',
     ['vital/config/config_parser.cxx', 'vital/config/token_expander.cxx'],
     [('process_file', 'vital/config/config_parser.cxx'), ('resolve_file_name', 'vital/config/config_parser.cxx')],
     AI + ': effect tables per directive', TRUST)

prop('C03', 'A typed read of a configuration value converts it or fails',
     'A typed read returns the value stored under the key converted to the requested type; text from which the type cannot be read is reported with the '
     'documented conversion error naming key and value, and a missing key with the missing-key error. A read with a default returns the default exactly '
     'in those cases and otherwise the converted value.',
     ['inputs'], 'every key, stored text and type with a converter',
     'Tests convert a few texts per type; partial conversions and every converter instantiation are beyond a sample.',
     ['vital/config/config_block.h', 'vital/config/config_block.cxx', 'vital/types/timestamp_config.h'],
     [('config_block_get_value_cast and specialisations', 'vital/config/config_block.h'), ('get_value overloads', 'vital/config/config_block.h')],
     AI + ': extraction-must-be-checked', TRUST)

prop('C04', 'Set, merge, subblock and key listing keep entries consistent',
     'Setting stores value and description under exactly the given key, an empty description never replacing an existing one; unsetting removes value and '
     'description; merging performs the set for every entry of the other block; a subblock holds exactly the entries below its prefix with the prefix '
     'removed. The key listing contains exactly the keys that a read resolves.',
     ['histories', 'inputs'], 'every sequence of operations, key and nesting of blocks',
     'Tests use a few keys; the stores have to stay in step for every key and order of operations.',
     ['vital/config/config_block.cxx', 'vital/config/config_block.h'],
     [('m_store, m_descr_store and their users', 'vital/config/config_block.cxx')],
     AI + ': paired-store effect tables', TRUST)

prop('C07', 'Configuration files are found and layered in the documented order',
     'A file named absolutely is read directly and must be an existing regular file. Otherwise the environment override, the per-application directories of '
     'user and system, the application data and prefix directories and finally the current directory are tried in that order, version-specific before '
     'version-less; without merging the first file found is used alone, with merging every file found contributes and earlier locations win. If nothing '
     'is found the not-found error is raised.',
     ['inputs', 'configurations'], 'every environment, prefix, application name, version and set of existing files',
     'Tests cannot populate every location of the search path in every combination.',
     ['vital/config/config_block_io.cxx'],
     [('config_file_paths, application_paths', 'vital/config/config_block_io.cxx'), ('read_config_file', 'vital/config/config_block_io.cxx')],
     AI + ': construction-order of the search list, per-iteration merge discipline', TRUST)

prop('C08', 'Written configurations are complete and write failures are reported',
     'Writing a configuration emits every available key in sorted order as one "key = value" line, preceded by its non-empty description as comment lines, '
     'and writes nothing else but comments and blank lines; an empty configuration is refused. Writing to a file returns normally only if the file was '
     'opened, its directory existed or was created, and the stream was still good after the last write; a directory is never written to.',
     ['inputs', 'faults'], 'every configuration and every open or write failure',
     'Tests write small blocks to a healthy file system.',
     ['vital/config/config_block_io.cxx'],
     [('write_config, write_config_file, write_cb_comment', 'vital/config/config_block_io.cxx')],
     AI + ': per-iteration output accounting, must-check of stream state', TRUST)

prop('C09', 'Macros in configuration values expand to exactly what their provider gives',
     'A macro reference in a value is replaced by the text its provider holds for the name, or by nothing when the provider does not know the name; a '
     'reference to an unknown provider is kept literally, and all other text is copied unchanged and in order. The environment, local, configuration and '
     'system providers deliver the variable, symbol, entry or system property of that name.',
     ['inputs'], 'every text, provider and name',
     'Tests expand a handful of texts; text between macros and unknown names are sampled at most once.',
     ['vital/config/token_expander.cxx', 'vital/config/token_type_env.cxx', 'vital/config/token_type_config.cxx', 'vital/config/token_type_symtab.cxx',
      'vital/config/token_type_sysenv.cxx'],
     [('expand_token', 'vital/config/token_expander.cxx'), ('lookup_entry', 'vital/config/token_type_*.cxx')],
     AI + ': cursor/accumulator accounting per iteration, provider tables', TRUST)

prop('C10', 'Configuration text is divided into lines and tokens as documented',
     'The parser reads every line of a configuration file once and in order, and counts it. What follows a # and surrounding white space are removed; '
     'lines that are then empty are skipped, all others are delivered. Of a line, the text ":=" begins a local definition and "=" an assignment, whose value '
     'is the rest of the line without surrounding space; letters and commas in square brackets are an attribute; a word of three or more characters begins '
     'with a letter, continues with letters, digits and any of - _ . : / and does not end in a colon; anything else is an error. A token and the '
     'space after it are consumed, the rest is kept for the next token, and a new line is read only when nothing is left.',
     ['inputs'], 'every text of a configuration file',
     'Tests parse a handful of well-formed files; comments, spacing and operators are combined in a few ways only.',
     ['vital/config/config_parser.cxx'],
     [('get_line', 'vital/config/config_parser.cxx'), ('get_token', 'vital/config/config_parser.cxx')],
     AI + ': value of every path of the lexer compared with the documented token for texts of each form', TRUST)

prop('I01', 'Camera, landmark and track files are complete or the failure is reported',
     'Writing a camera (KRTD), landmark (PLY) or track file returns normally only if the path is no directory, its directory existed or was created, the '
     'file was opened, and the stream was still good after everything was flushed; every other outcome is a file-write exception, as is an empty '
     'collection or a track state without feature. The file holds one line for every landmark or track state of the collection, whose columns are the '
     'ones the header (or the format) names, in that order, with colors as numbers, and the announced number of vertices is the number written.',
     ['inputs', 'faults'], 'every collection, path and open or write failure',
     'Tests write one or two small objects to a healthy file system.',
     ['vital/io/camera_io.cxx', 'vital/io/landmark_map_io.cxx', 'vital/io/track_set_io.cxx'],
     [('write_krtd_file', 'vital/io/camera_io.cxx'), ('write_ply_file', 'vital/io/landmark_map_io.cxx'), ('write_track_file', 'vital/io/track_set_io.cxx')],
     AI + ': must-check of stream state after the last write, per-iteration output accounting', TRUST)

prop('I02', 'Camera, landmark and track files are read in full or rejected',
     'Reading a KRTD, PLY or track file reports a missing path or a directory as file-not-found, a file that can not be opened as file-not-read, and '
     'contents that can not be converted as invalid data; no value that failed to convert is ever used. Each PLY column, under its standard name or '
     'its VisualSFM alias, sets exactly the landmark attribute it names, and no more vertices are read than announced. Each line of a track file '
     'becomes a state, with frame and feature taken from their columns, of the one track having the number of that line. The cameras of a list of images are '
     'read from the files of the same names, kept under the position of their image, and only missing files are left out.',
     ['inputs', 'faults'], 'every file content and every open failure',
     'Tests read a few well-formed files and a missing one.',
     ['vital/io/camera_io.cxx', 'vital/io/camera_map_io.cxx', 'vital/io/landmark_map_io.cxx', 'vital/io/track_set_io.cxx'],
     [('read_krtd_file', 'vital/io/camera_io.cxx'), ('read_krtd_files', 'vital/io/camera_map_io.cxx'), ('read_ply_file', 'vital/io/landmark_map_io.cxx'), ('read_track_file', 'vital/io/track_set_io.cxx')],
     AI + ': dominating conversion checks, column table extracted from the parsed program', TRUST)

prop('I03', 'Stream readers take back exactly what stream writers produced',
     'For features, landmarks, colors, rotations, similarity transformations, cameras and camera intrinsics, the input operator takes the columns in the '
     'order in which the output operator emits them and stores each one in the member it was written from; columns are separated by white space and '
     'numbers are written as numbers; cameras and intrinsics are written with at least 12 digits, and the single zero that stands for an absent lens '
     'distortion is written and recognised exactly then. An input operator never stores a value it could not convert.',
     ['inputs'], 'every value and every truncated or malformed input',
     'Tests round trip single values with equal or default members, which hide exchanged or dropped columns.',
     ['vital/types/feature.cxx', 'vital/types/landmark.cxx', 'vital/types/color.h', 'vital/types/rotation.cxx', 'vital/types/similarity.cxx', 'vital/types/camera.cxx',
      'vital/types/camera_intrinsics.cxx'],
     [('operator<<, operator>>', 'vital/types/feature.cxx'), ('operator<<, operator>>', 'vital/types/landmark.cxx'), ('operator<<, operator>>', 'vital/types/camera.cxx')],
     AI + ': writer/reader column agreement', TRUST)

prop('T01', 'Timestamps compare, change and print by what is valid',
     'Comparing two timestamps (<, >, ==, !=) is false when their time domains differ; otherwise times are compared if both are valid, else frames if both '
     'are valid, else the result is false. Setting the time (in seconds or microseconds) or the frame stores the value and makes just that part valid, invalidating '
     'makes both parts invalid, and a new timestamp without arguments has no valid part. Getters return what was set; a timestamp is valid exactly when '
     'both parts are. pretty_print shows a part exactly when it is valid and never uses a missing calendar text.',
     ['inputs'], 'every pair of timestamps and every sequence of setters',
     'Tests compare a few pairs; there are 288 combinations of validity, domain and order for each operator.',
     ['vital/types/timestamp.cxx', 'vital/types/timestamp.h'],
     [('operator<, operator>, operator==, operator!=', 'vital/types/timestamp.cxx'), ('set_*', 'vital/types/timestamp.cxx')],
     AI + ': decision table enumeration, must-write sets of setters', TRUST)

prop('T02', 'Pixel access stays inside the image',
     'Accessing a pixel of an image through its index operators or at() addresses exactly first pixel + i*w_step + j*h_step + k*d_step (k = 0 for the '
     'two-index forms), and only when i, j and k lie inside the image; every other index raises out_of_range and touches no memory. at() returns the '
     'first channel as gray below three channels and channels 0, 1, 2 otherwise.',
     ['inputs'], 'every image, view and index',
     'Tests probe a few indices of a few images; the bound must dominate the access in every accessor.',
     ['vital/types/image.h'],
     [('at, operator()', 'vital/types/image.h')],
     AI + ': dominating bounds and linear address form', TRUST)

prop('T03', 'Images allocate, share, copy, compare and transform all of their pixels',
     'Copying or assigning an image shares memory and takes over size and steps. Constructing or resizing an image allocates width*height*depth bytes '
     'with steps that enumerate exactly these bytes, resizing to the same size changes nothing, and an image memory copies all its bytes and frees '
     'them once. A deep copy stores every pixel of the source, two images are equal exactly when size and all pixels agree, and transform_image '
     'applies the operation once to every pixel, whatever the order and ties of the memory steps.',
     ['inputs'], 'every image size, every memory layout of source and target',
     'Tests use planar or interleaved images; the loops have to be right for each of the thirteen orders of the three steps.',
     ['vital/types/image.cxx', 'vital/types/image.h'],
     [('copy_from, set_size, transform_image, equal_content', 'vital/types/image.cxx'), ('image_memory', 'vital/types/image.cxx')],
     AI + ': polynomial address forms of loop nests, enumeration of step orders', TRUST)

prop('T04', 'Tracks stay ordered and track sets select exactly the tracks asked for',
     'The states of a track are strictly ordered by frame as far as they were added by append: a state or track is appended at the end when the track is '
     'empty or its last frame is smaller, and otherwise refused without change; appending nothing succeeds. find returns the state of the frame or end(). '
     'first_frame, last_frame, all_frame_ids and id of a track are those of its states and its number. A track set lists the ids and frames of '
     'all its tracks, its first and last frame are the extremes over its non-empty tracks (0 if there are none), get_track gives a track with the id or null, and '
     'active, inactive, new and terminated tracks, and features and descriptors of a frame (or the last one), are exactly those of '
     'the tracks that have a state on, have none on, start on, or end on the frame; percentage_tracked is the number of tracks on both frames divided by that of tracks '
     'on either (0 if none). A negative offset counts back from the last frame.',
     ['inputs', 'histories'], 'every set of tracks, including empty tracks and negative frame numbers, every frame',
     'Tests use one set of regular tracks with positive frames.',
     ['vital/types/track.cxx', 'vital/types/track.h', 'vital/types/track_set.cxx', 'vital/types/track_set.h'],
     [('append, find', 'vital/types/track.cxx'), ('active_tracks, percentage_tracked, offset_to_frame', 'vital/types/track_set.cxx')],
     AI + ': guarded mutation (append), selection loops decided per path, induction step for extremes', TRUST)

prop('A01', 'Algorithms are found by type and name and created as independent copies',
     'Registering an algorithm instance makes it known under TYPE:IMPL among all algorithms and under IMPL among those of its type, replacing an earlier entry; '
     'a null instance is refused and registers nothing. Creating by name gives null for an unknown name and otherwise a clone of the registered instance, never that '
     'instance itself; clones are copies of the concrete class. registered_names lists all entries, for a type exactly the IMPL names whose entry starts '
     'with TYPE: (not types whose name merely begins alike); has_type_name and has_impl_name answer accordingly. No two algorithm types share a type name.',
     ['inputs', 'histories'], 'every sequence of registrations and every name, for each of the algorithm types',
     'Tests register none or one algorithm of one type; the templates are instantiated for twenty types.',
     ['vital/registrar.h', 'vital/algo/algorithm.h', 'vital/algo/algorithm.txx', 'vital/algo/algorithm.cxx'],
     [('register_item, find, registered_names', 'vital/registrar.h'), ('register_instance, create', 'vital/algo/algorithm.txx'), ('registered_names, create', 'vital/algo/algorithm.cxx')],
     AI + ': map effects of registration, ownership of the value returned by create', TRUST)

prop('A02', 'Nested algorithm settings are recorded, applied and checked under the same keys',
     'The name of a nested algorithm is the value of NAME:type and its settings are the subblock NAME:IMPL, for recording, applying and checking alike. Applying creates '
     'the named implementation and configures it with its subblock exactly when the type is set and registered, and otherwise leaves the nested algorithm as it was. Checking succeeds '
     'exactly when the type is set and registered and the registered instance accepts the subblock. Recording stores name and configuration of the nested algorithm; without '
     'one it stores an empty type only if none is set. get_impl_configurations merges the configuration of every registered implementation under its name. Every algorithm type '
     'uses its own type name.',
     ['inputs'], 'every configuration and every set of registered algorithms, for each of the algorithm types',
     'No test of the repository nests algorithms.',
     ['vital/algo/algorithm.cxx', 'vital/algo/algorithm.txx'],
     [('get/set/check_nested_algo_configuration', 'vital/algo/algorithm.cxx'), ('get/set/check_nested_algo_configuration, get_impl_configurations', 'vital/algo/algorithm.txx')],
     AI + ': agreement of the keys of sibling functions, guarded effects per path', TRUST)

prop('A03', 'Plug-in libraries are selected, kept open and recorded as documented',
     'From every search path, exactly the files with the library suffix that are no directories and, if a name is given, are called so (without suffix) are loaded, as directory/file; empty '
     'and missing directories are passed over. A library without registration function is closed and not recorded; a library whose function was called is never closed, and recorded under its file name '
     'without suffix exactly when the function reported no failure. The search path is that of KWIVER_PLUGIN_PATH, then the default directories, then added ones. '
     'registered_module_names lists the recorded names. load_plugins_once loads everything at its first call only and tells whether it did.',
     ['inputs', 'histories', 'faults'], 'every directory content and every plug-in library, failing or not',
     'Tests have no plug-in library at all.',
     ['vital/algorithm_plugin_manager.cxx'],
     [('load_modules_in_directory, register_from_module', 'vital/algorithm_plugin_manager.cxx'), ('load_plugins_once', 'vital/algorithm_plugin_manager.cxx')],
     AI + ': typestate of library handles, guards of the load call', TRUST)

prop('A04', 'Algorithm front ends hand exactly the corresponding data to the implementations',
     'Estimating a homography, fundamental or essential matrix from feature matches passes the location of the first-set feature and the second-set feature of every match, in step, '
     'with the other arguments in place, and one given camera serves both images. Estimating a similarity from lists passes every position in order; from maps it passes '
     'exactly the elements of equal key, paired. Optimizing cameras refuses null input with invalid_value, and optimizes every camera once with exactly the features '
     'that tracks with a landmark have on its frame, each with the landmark of its track, and keeps every camera of the map. Filtering features together with descriptors returns the descriptors '
     'of the kept features in their order. Images are loaded only from existing files that are no directories, and saved only into existing directories; '
     'otherwise path_not_exists, path_not_a_file or path_not_a_directory is raised.',
     ['inputs'], 'every feature set, match set, track set, camera map, landmark map and path',
     'The front ends are tested with one implementation or none and never with maps of different keys.',
     ['vital/algo/estimate_homography.cxx', 'vital/algo/estimate_fundamental_matrix.cxx', 'vital/algo/estimate_essential_matrix.cxx', 'vital/algo/estimate_similarity_transform.cxx',
      'vital/algo/optimize_cameras.cxx', 'vital/algo/filter_features.cxx', 'vital/algo/image_io.cxx'],
     [('estimate', 'vital/algo/estimate_homography.cxx'), ('estimate_transform', 'vital/algo/estimate_similarity_transform.cxx'), ('optimize', 'vital/algo/optimize_cameras.cxx')],
     AI + ': contents of the lists built by loops, guards, argument order', TRUST)

CDIR = 'vital/bindings/c/'

prop('B01', 'No exception leaves the C interface and every failure is reported',
     'No function of the C interface lets an exception out. When anything behind a function with an error handle fails, the handle receives a nonzero error code (for reading and '
     'writing configuration files the documented code of the failure) and the complete text of the error in a buffer large enough for it; without a handle (NULL) the call '
     'still returns. The failure value of the function (null, zero, false; true for vital_track_empty) is returned, and a call that succeeds leaves the handle as it was.',
     ['inputs', 'faults'], 'every exported function and every failure of the C++ code behind it',
     'Tests provoke a failure in two or three functions; each of about a hundred has to contain it.',
     [CDIR + 'helpers/c_utils.h', CDIR + 'helpers/algorithm.h', CDIR + 'config_block.cxx', CDIR + 'image.cxx', CDIR + 'track_set.cxx', CDIR + 'camera.cxx'],
     [('STANDARD_CATCH, POPULATE_EH', CDIR + 'helpers/c_utils.h'), ('read_config_file_helper, vital_config_block_file_write', CDIR + 'config_block.cxx')],
     AI + ': exception escape, effects of handlers', TRUST)

prop('B02', 'Texts and lists handed to C are complete, terminated and released once',
     'vital_string_new gives a structure that owns a buffer of length + 1 bytes with the first length bytes of the text and a terminator at position length. A list of strings handed out has one '
     'separately allocated, complete and terminated copy per string, in order, and its length. The free functions release each piece once and the container last; '
     'vital_eh_new gives an empty handle and vital_eh_destroy accepts null and releases message and handle. Every copy of a text goes into a buffer with room for its terminator.',
     ['inputs'], 'every text and list, including empty ones',
     'Writing one byte past a buffer goes unnoticed by tests without memory checking.',
     [CDIR + 'common.cxx', CDIR + 'error_handle.cxx', CDIR + 'helpers/c_utils.cxx', CDIR + 'helpers/c_utils.h'],
     [('make_string_list', CDIR + 'helpers/c_utils.cxx'), ('vital_string_new, vital_common_free_string_list', CDIR + 'common.cxx')],
     AI + ': buffer size against length copied, ownership of released pieces', TRUST)

prop('B03', 'Handles keep their objects alive exactly as long as they are in use',
     'A handle cache keeps an object from its first store until it was released as often as it was stored; storing or looking up null and looking up an unknown handle fail, releasing an unknown handle '
     'changes nothing, and no operation touches the entry of another object. Every exported function that returns the handle of a shared object stores that very object, once, in each cache of its kind '
     '(algorithms in the general cache and in that of their type), and every destroy function releases its argument once from each of them. Configuring an algorithm through its handle '
     'keeps handle and object if the object stays, and otherwise stores the new object, returns its handle and releases the former.',
     ['histories', 'inputs'], 'every sequence of calls that create, hand out, replace and destroy handles',
     'Leaks and dangling handles do not fail a functional test.',
     [CDIR + 'helpers/c_utils.h', CDIR + 'helpers/algorithm.h', CDIR + 'track_set.cxx', CDIR + 'camera_map.cxx', CDIR + 'config_block.cxx'],
     [('SharedPointerCache', CDIR + 'helpers/c_utils.h'), ('create, clone, destroy, set_type_config', CDIR + 'helpers/algorithm.h')],
     AI + ': reference-count transitions, balance of stores and releases per function', TRUST)

prop('B04', 'Every C function performs the C++ operation it stands for',
     'Every function declared by a C header is defined with C linkage. It performs exactly the C++ operation it names, once, on the objects behind its handles, with its own arguments in their places, and '
     'returns the result of that operation; it has no other effect. An image made of raw data holds the byte at first + x*w_step + y*h_step + c*d_step for every x, y and c, with the planes taken in '
     'reverse for a negative d_step; a track set made of handles holds exactly their tracks in order; a camera map made of two arrays holds the camera at each position under the frame at that position '
     '(none without arrays), and is handed out as two arrays in step.',
     ['inputs'], 'every exported function except the containment of failures (B01), all arguments',
     'The C interface has hardly any tests; a call that forwards two arguments in the wrong order compiles.',
     [CDIR + 'config_block.cxx', CDIR + 'image.cxx', CDIR + 'track_set.cxx', CDIR + 'camera_map.cxx', CDIR + 'algorithm.cxx', CDIR + 'helpers/algorithm.h', CDIR + 'algo_def/track_features.cxx'],
     [('forwarding functions', CDIR + 'config_block.cxx'), ('vital_image_new_from_data', CDIR + 'image.cxx'), ('vital_camera_map_get_map', CDIR + 'camera_map.cxx')],
     AI + ': forwarding conformance against a table of operations, affine addressing', TRUST)


EXC = 'vital/exceptions/'
prop('E01', 'Every exception belongs to its family and its message says what it carries',
     'Every exception class of the library derives publicly, along one path, from std::exception through the base class documented for its family (config_block_exception and config_block_io_exception, '
     'io_exception, image_exception, math_exception, algorithm_exception), so that a handler for the family takes it. what() returns the text of the object and changes nothing. Each constructor leaves a '
     'text that consists of fixed words and its own arguments, each argument after the words that announce it, and keeps its arguments in the members of their name; different failures of one family '
     'have different texts.',
     ['inputs'], 'every exception class, constructor and argument',
     'Tests check that a class is thrown at all; nobody checks the text or the members of most of the thirty-odd classes.',
     [EXC + 'base.h', EXC + 'io.cxx', EXC + 'image.cxx', EXC + 'math.cxx', EXC + 'algorithm.cxx', 'vital/config/config_block_exception.cxx', 'vital/config/config_block_exception.h'],
     [('constructors build m_what', 'vital/config/config_block_exception.cxx'), ('vital_core_base_exception::what', EXC + 'base.cxx')],
     AI + ': structure of the text built, class hierarchy query', TRUST)

prop('E02', 'Errors reach the handler meant for them and never leave no-throw functions',
     'Errors are thrown by value, as objects of an exception class with a text of its own; a text thrown as an error is taken by a handler of the same function. The arguments of a throw stand in the '
     'places the class names them for (path and reason; key, current value and refused value; key, value and reason of a failed conversion). No handler is hidden by an earlier one or copies off the '
     'derived part of the exception it takes, and no explicit throw, of the function or of anything it calls, leaves a function that promises not to throw or a destructor.',
     ['inputs', 'histories'], 'every throw expression, handler, destructor and function declared not to throw',
     'An exception that leaves a function declared not to throw ends the process; tests do not reach most of the places that throw.',
     ['vital/config/config_block.h', 'vital/config/config_block.cxx', 'vital/io/track_set_io.cxx', 'vital/io/camera_io.cxx', 'vital/bindings/c/helpers/c_utils.h', 'vital/types/homography.cxx'],
     [('get_value with a default takes every conversion failure', 'vital/config/config_block.h'), ('handlers of the C interface', 'vital/bindings/c/helpers/c_utils.h')],
     AI + ': exception-escape fixpoint over the call graph, handler order, argument roles', 'Exceptions of the standard library (allocation failure) are not counted as explicit throws. ' + TRUST)


TY = 'vital/types/'
NUM = AI + ': normal forms of the values computed on every path'
prop('T05', 'Value types keep what they are given and copies are equal and independent',
     'Each constructor of a value type (feature, landmark, camera, intrinsics, rotation, similarity, homography, essential and fundamental matrix, covariance, frame homography, colour, geographic point, '
     'track state, maps and sets of features, descriptors, landmarks, cameras and matches) leaves an object whose accessors give the arguments back, default construction gives the documented '
     'neutral values, and each setter changes what its getter gives and nothing else. Copying, cloning, assigning and converting from the interface or another precision keep everything the '
     'accessors tell, and every documented conversion can be written. A class that owns memory copies it; a camera given no intrinsics has default ones; a descriptor tells all its elements. == holds exactly if all that is compared is equal, and != is its negation; size() is the number of elements.',
     ['inputs'], 'every value type, constructor, setter, conversion and argument',
     'Tests compare a few fields for one precision; a field left out of a copy, a clone or a conversion goes unnoticed.',
     [TY + 'feature.h', TY + 'landmark.h', TY + 'camera.h', TY + 'camera_intrinsics.h', TY + 'covariance.h', TY + 'descriptor.h', TY + 'homography_f2f.cxx', TY + 'geo_lat_lon.cxx', TY + 'rotation.h', TY + 'similarity.h'],
     [('copying and converting constructors', TY + 'feature.h'), ('clone()', TY + 'camera.h'), ('comparison', TY + 'geo_lat_lon.cxx')],
     NUM + ', ownership of memory, programs that have to compile', TRUST)

prop('T06', 'Nothing is read before it has been given a value',
     'After every constructor each member that any code of the library uses has a value, and no constructor reads a member before that; no function reads a local variable on a path on which nothing was stored in it; '
     'the value types contain no undetermined part once constructed.',
     ['inputs'], 'every constructor and function of the library, every path',
     'Indeterminate values often happen to be zero in a test.',
     [TY + 'covariance.h', TY + 'similarity.cxx', TY + 'track_set.cxx', 'vital/config/config_parser.cxx', 'vital/io/track_set_io.cxx', 'vital/bindings/c/helpers/c_utils.h'],
     [('constructors', TY + 'covariance.h'), ('constructors', TY + 'similarity.cxx')],
     AI + ': definite assignment (path-sensitive on local flags), undetermined parts of symbolic objects',
     'kwiversys and the elements of fixed-size descriptors (storage for their user to fill) are left out. ' + TRUST)

prop('G01', 'Cameras project as their intrinsics, pose and distortion model say',
     'The calibration matrix of intrinsics is [f s u; 0 f/a v; 0 0 1], and intrinsics made of such a matrix have it. distort() is the stated polynomial in the radial and tangential coefficients, with up to '
     'eight of them and any number given; map() applies distortion and then calibration, a point in camera coordinates is mapped at (x/z, y/z), unmap() takes the calibration off and then undistorts, and each step of '
     'the iteration that undistorts solves with the Jacobian of distort() at the current point. A camera projects p to the map of R*(p - c), its depth is the third coordinate of that, its matrix is K*[R | -R*c], the two '
     'agree where there is no distortion, translation() is -R*c, and look_at() turns the optical axis to the point, keeps the image upright and the centre where it is.',
     ['inputs'], 'all real parameters, poses and points',
     'Tests use one or two cameras, mostly without distortion; errors in a coefficient only used by some models stay hidden.',
     [TY + 'camera_intrinsics.cxx', TY + 'camera_intrinsics.h', TY + 'camera.cxx', TY + 'camera.h'],
     [('distort, undistort, map, unmap', TY + 'camera_intrinsics.cxx'), ('project, as_matrix, look_at', TY + 'camera.cxx')],
     NUM, 'Exact arithmetic over the reals: rounding and convergence of the iteration are not part of the property. ' + TRUST)

prop('G02', 'Homographies and two-view matrices are the transformations they name',
     'map() divides the first two coordinates of H*(p,1) by the third, and throws point_maps_to_infinity if that vanishes; normalize() divides by the lower right corner unless that vanishes; inverse() is the inverse matrix or throws '
     'non_invertible_matrix; the product has the product of the matrices. Frame homographies compose if the inner frames meet, throw otherwise, and carry the outer frames; the inverse exchanges them; made of a frame alone they are '
     'the identity; each holds a homography of its own. An essential matrix is [t]x R with t of unit length; its twisted rotation is R followed by a half turn about t; made of a matrix it is the proper rotation +-U*W*V^T '
     'and the last column of U. A fundamental matrix is made singular with unit norm.',
     ['inputs'], 'all matrices, points and frames, both precisions',
     'Tests try one matrix each; the signs and transposes that make a decomposition proper matter only for some inputs.',
     [TY + 'homography.cxx', TY + 'homography_f2f.cxx', TY + 'homography_f2w.cxx', TY + 'essential_matrix.cxx', TY + 'fundamental_matrix.cxx'],
     [('map, normalize, inverse', TY + 'homography.cxx'), ('f2f_homography::operator*', TY + 'homography_f2f.cxx'), ('constructor from a matrix', TY + 'essential_matrix.cxx')],
     NUM, 'Exact arithmetic; that Eigen factors matrices as it documents is trusted. ' + TRUST)

prop('G03', 'Covariances are symmetric and every element has one place',
     'The elements (i,j) and (j,i) of a covariance are one stored value, different pairs are different values, and none lies outside the storage. The full matrix, a copy, an assignment and a conversion have every element in its place; '
     'made of a matrix it is its symmetric part, made of a number that multiple of the identity, and by default the identity.',
     ['inputs'], 'every covariance type, index and matrix',
     'The packed index is shared by all members, so that a test through the same members cannot see a wrong place.',
     [TY + 'covariance.h', TY + 'covariance.cxx'],
     [('vec_index', TY + 'covariance.h')], NUM + ', index ranges', TRUST)

prop('G04', 'Rotations and similarities form groups acting on vectors',
     'Rotating a vector is multiplying it with the matrix, products and inverses have the product and transpose of the matrices, and the matrix is orthonormal with determinant 1. A rotation made of angle and axis, rotation vector, '
     'matrix or yaw, pitch and roll is that rotation, and angle(), axis(), rodrigues() and get_yaw_pitch_roll() give it back (angle below a half turn; zero vector and identity included). Interpolating turns by the fraction of the way; '
     'interpolated_rotations gives n of them at equal fractions. A similarity maps v to s*R*v + t; products, inverses, the 4x4 matrix and construction from it follow.',
     ['inputs'], 'all rotations and similarities, both precisions',
     'Tests compare a few rotations within a tolerance; signs and branches matter for special angles only.',
     [TY + 'rotation.cxx', TY + 'rotation.h', TY + 'similarity.cxx', TY + 'similarity.h'],
     [('angle, axis, rodrigues, interpolate_rotation', TY + 'rotation.cxx'), ('operator*, inverse, matrix', TY + 'similarity.cxx')],
     NUM, 'Exact arithmetic over the reals. ' + TRUST)

LGR = 'vital/logger/'
prop('S01', 'Shared state is constant, per thread or locked; singletons are made once',
     'Threads that use different objects do not race. Any object with static storage, and any state shared by all loggers, that is modified after its initialisation is atomic, exists per thread or has one mutex held at every '
     'access; log lines are written under one lock; library functions with a shared result buffer (localtime, ctime) are called under a lock. registrar, plug-in manager and logger manager have one instance, made by the first access; '
     'load_plugins_once() registers the plug-ins and returns true in its first call only. Not covered: C handle tables, tools, registration and replacing of the logger factory, the rest of kwiversys.',
     ['schedules', 'histories'], 'every interleaving of calls from any number of threads on different objects',
     'A race needs a particular interleaving; the tests are single-threaded.',
     [LGR + 'default_logger.cxx', LGR + 'kwiver_logger_manager.cxx', 'vital/algorithm_plugin_manager.cxx', 'vital/config/token_expander.cxx', 'vital/util/get_paths.cxx', 'vital/types/timestamp.cxx'],
     [('instance, load_plugins_once', 'vital/algorithm_plugin_manager.cxx'), ('log_message_i, get_logger', LGR + 'default_logger.cxx'), ('static regular expressions', 'vital/config/token_expander.cxx')],
     'lockset analysis: mutexes certainly held at every access of every object with static storage, helpers taken at their call sites; two-call typestate of the singletons', TRUST)

prop('L01', 'A log call writes its message exactly when its level is enabled',
     'The levels are ordered TRACE < DEBUG < INFO < WARN < ERROR < FATAL; a level is enabled exactly when it is not below the level set, and a new logger has all enabled. The LOG_ macros and log_<level>() of the built-in logger write '
     'the message exactly then, one line per line of the message, each with the time, the level name, file and line of the call, and the text; a disabled macro does not evaluate its message, and LOG_ASSERT reports exactly when its '
     'condition is false. get_logger() returns one logger per name, from the installed factory; a plug-in replaces the factory only when it supplies one, and the built-in one serves when loading fails.',
     ['inputs', 'histories'], 'every message, level, name and place of call, and every outcome of loading a plug-in',
     'The tests only call the macros; nothing looks at what is written, for which level, or at a failing plug-in.',
     [LGR + 'default_logger.cxx', LGR + 'kwiver_logger.cxx', LGR + 'kwiver_logger_manager.cxx', LGR + 'location_info.cxx', LGR + 'logger.h'],
     [('is_<level>_enabled, log_<level>, log_message_i', LGR + 'default_logger.cxx'), ('load_factory, get_logger', LGR + 'kwiver_logger_manager.cxx'), ('LOG_ and IS_ macros', LGR + 'logger.h')],
     AI + ', path facts evaluated for every level, emission of each line compared; programs using the macros have to type-check', TRUST)

prop('U01', 'Texts are split, sparse matrices walked and times measured exactly',
     'tokenize() appends to the list, which keeps what it held, exactly the parts of the text that lie between delimiters, in order: with trimming off also the empty ones, with trimming on none of them. '
     'Iterating over a sparse matrix visits every non-zero cell once, outer vector by outer vector, for every matrix including ones without columns and with any number of empty columns; iterators are equal exactly when both are at the end '
     'or stand at the same cell, and copies stand where the original stands. Timers report the seconds, with fractions, from start() until now while running and until stop() afterwards, 0 if never started; CPU timers from the CPU clock, '
     'wall timers from a wall clock; a scoped timer starts when made and reports once when it ends, with its title if it has one.',
     ['inputs', 'histories'], 'every text, delimiter set and trimming flag, every sparse matrix, every sequence of start, stop and elapsed',
     'The tests split a few texts and walk one small matrix; the wall clock timer had been disabled without any test noticing.',
     ['vital/util/tokenize.h', 'vital/util/enumerate_matrix.h', 'vital/util/timer.h', 'vital/util/cpu_timer.h.in', 'vital/util/wall_timer.h.in'],
     [('tokenize', 'vital/util/tokenize.h'), ('sparse_matrix_enumerator::iterator', 'vital/util/enumerate_matrix.h'), ('scoped_timer', 'vital/util/timer.h')],
     AI + ', case analysis over one arbitrary loop iteration (inductive step), comparison evaluated on all cases', TRUST)
