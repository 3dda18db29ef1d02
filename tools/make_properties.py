"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, pathlib

P = []


def prop(id, title, statement, over, quant, why, files, mech, state, observe):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=state, meaning=state, where=files[0])] if state != 'none' else [],
                     observe_at=[observe], hook_needed=None)))


prop('C01', 'Saving and re-opening a workspace reproduces its code and output exactly',
     'Saving a workspace stores exactly its code files (everything at top level except input, output, temp and the '
     'metadata directory) and its output files, byte for byte and under the same relative paths, with symbolic links '
     'stored as what they point at, and leaves the workspace itself unchanged. '
     'Editing the saved bead recreates exactly the code files and no output, input or temp data; with --review it also '
     'recreates exactly the output files. '
     'An edit never writes into a directory that already exists.',
     ['inputs', 'configurations'],
     'every tree of regular files with Unicode names (hidden files, nested reserved names, any size including 0 and '
     'beyond the copy buffers, old modification times), every compression setting',
     'Tests save two or three tiny text files; the guarantee is over every file tree.',
     ['bead/workspace.py', 'bead/ziparchive.py', 'bead/bead.py', 'bead_cli/workspace.py'],
     [('archive writer', 'bead/workspace.py:_ZipCreator'), ('extraction', 'bead/ziparchive.py:extract_dir'),
      ('unpack', 'bead/bead.py:Archive.unpack_to')],
     'workspace directory, archive file', 'files on disk after `bead save` and `bead edit [--review]`; entries of the zip')

prop('C02', 'The content id is a fixed, collision-free function of what the bead contains',
     'The content id of a saved bead depends only on its name, kind, freeze time, input references and the paths and '
     'bytes of its code and output files: it equals an independently computed reference value, and so does not depend '
     'on compression, file order, file times, location or the computer. '
     'Two beads that differ in any of these have different content ids.',
     ['inputs', 'configurations'],
     'every pair of beads differing in one aspect or only in irrelevant ones; file sizes around the hashing block size',
     'Tests compare one or two fixed contents; injectivity and stability are over all contents.',
     ['bead/workspace.py', 'bead/tech/securehash.py', 'bead/ziparchive.py'],
     [('manifest', 'bead/workspace.py:_ZipCreator.add_meta'), ('hash', 'bead/tech/securehash.py')],
     'archive manifest', 'content id reported by archives, box searches and recorded input references')

prop('C03', 'A modified bead is never accepted as the original',
     'Whatever is done to the file of a saved bead, afterwards either verification rejects it, or its content id is a '
     'different one, or it extracts exactly the original code and output. '
     'Commands given a bead that fails verification (edit, input add, load, update) report it as damaged and neither '
     'extract files nor change the workspace; a freshly saved bead always passes verification.',
     ['inputs', 'fault_sequences'],
     'every mutation of the archive: bit flips, truncation, changed/added/removed/renamed/swapped/duplicated entries, '
     'edited metadata or manifest, consistent re-signing',
     'Tests tamper with one file in one way.',
     ['bead/ziparchive.py', 'bead_cli/common.py', 'bead_cli/input.py', 'bead_cli/workspace.py'],
     [('validate', 'bead/ziparchive.py:ZipArchive.validate'), ('verification', 'bead_cli/common.py:verify_with_feedback')],
     'archive entries, manifest', 'exit status, messages, files on disk, content ids')

prop('C04', 'Extracting any archive writes only inside the directory it was asked to fill',
     'Whatever the archive contains - entry names with "..", absolute paths, doubled slashes, or hostile input names in '
     'its metadata - editing it or loading its data creates or changes files only inside the new workspace or inside '
     'that one input directory. '
     'Files that lie outside are never created, overwritten or removed.',
     ['inputs'],
     'every archive, including self-consistent ones built to escape',
     'No test contains a hostile archive.',
     ['bead/ziparchive.py', 'bead/meta.py', 'bead_cli/input.py'],
     [('extract_file / extract_dir', 'bead/ziparchive.py'), ('input name validation', 'bead/meta.py:InputName')],
     'file system around the extraction target', 'snapshot of the surrounding directory tree before and after')

prop('C05', 'Saving is all or nothing and never harms beads already in the box',
     'If saving fails or is killed at any point, every bead already in the box is untouched, the workspace is unchanged, '
     'and the box afterwards lists either no new bead or the complete new one. '
     'A save that ends with an error or an interrupt leaves no incomplete bead file behind, a save that '
     'reports success has stored a complete bead, and saving never overwrites an existing file.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every failing or fatal file-system call during save (disk full, I/O error, kill, Ctrl-C), indexed and plain boxes',
     'No test injects a fault during save.',
     ['bead/workspace.py', 'bead/box.py', 'bead_cli/workspace.py'],
     [('pack and cleanup', 'bead/workspace.py:Workspace.pack'), ('store', 'bead/box.py:Box.store')],
     'box directory', 'box listing, files in the box, exit status')

prop('C06', 'Box searches return exactly the matching beads; resolving finds that very bead',
     'A search over one or more boxes returns exactly the stored beads that satisfy all its conditions (name, kind, '
     'content id, time equal/newer/older/at-or-newer/at-or-older) with their true metadata; newest, oldest, n-th newer '
     'or older, first and unique pick from that set as documented, and fail with a lookup error when there is nothing '
     'to pick. '
     'Resolving a found bead yields the archive with the same name, content id and box.',
     ['inputs', 'histories'],
     'every set of beads over every set of boxes, names containing pattern characters, time stamps in any time zone, '
     'every combination of conditions',
     'Tests query a handful of fixed beads with one condition each.',
     ['bead/box.py', 'bead/box_rawfs.py', 'bead/ziparchive.py'],
     [('BoxSearch / MultiBoxSearch', 'bead/box.py'), ('file scan', 'bead/box_rawfs.py:RawFilesystemResolver')],
     'box directories', 'results of the search and resolve API')

prop('C07', 'An up-to-date box index answers every search like scanning the files',
     'Right after indexing or reindexing a box, every search and resolve over it gives the same beads with the same '
     'metadata as the same search on the un-indexed files, whatever was stored, copied in, renamed or deleted before. '
     'Beads saved into an indexed box are found without indexing again.',
     ['histories', 'inputs'],
     'every history of save, copy-in, delete, rename, remove-index, index and reindex, and every search',
     'Tests cover only fixed small boxes and the index mainly by its own unit.',
     ['bead/box_index.py', 'bead/box.py', 'bead_cli/box.py'],
     [('sync / rebuild', 'bead/box_index.py:BoxIndex'), ('query', 'bead/box_index.py:query_beads')],
     'index database next to the bead files', 'search results with and without the index')

prop('C08', 'Foreign or damaged files in a box never break it or hide other beads',
     'Whatever other files (besides the index) a box directory contains - junk, truncated or malformed archives, wrong or incomplete '
     'metadata, impossible names, directories, dangling links - all intact beads remain listed, searchable, resolvable '
     'and loadable, with or without an index. '
     'No command that looks into boxes crashes because of such a file.',
     ['inputs', 'configurations'],
     'every combination of intact beads and foreign files, with and without an index',
     'One test has one junk file; crashes depend on the precise way the file is malformed.',
     ['bead/box_rawfs.py', 'bead/box_index.py', 'bead/ziparchive.py'],
     [('skip invalid archives', 'bead/box_rawfs.py:_archives_from'), ('InvalidArchive', 'bead/ziparchive.py')],
     'box directory', 'search results and command outcomes')

prop('C09', 'A loaded input is exactly the output data of the bead it references',
     'After adding, loading or updating an input, the input directory holds exactly the output files of the referenced '
     'bead, byte for byte and all read-only, and the workspace records that bead\'s kind, content id and freeze time. '
     'Loading an already defined input always brings the data of the recorded content id, from whichever box has it, '
     'and fails without changing anything when no box has it; unloading removes only the data and deleting removes data '
     'and reference.',
     ['histories', 'inputs'],
     'every history of add, load, unload, update, delete over several inputs, boxes and bead versions',
     'Tests walk a few fixed sequences with one-file beads.',
     ['bead_cli/input.py', 'bead/workspace.py', 'bead/ziparchive.py'],
     [('load / unload', 'bead/workspace.py:Workspace.load'), ('lookup by content id', 'bead_cli/input.py:_load')],
     'workspace input directory and metadata', 'files, modes and recorded references after each command')

prop('C10', 'Add, edit and update pick the right version of a bead',
     'Referring to a bead by name, optionally with a time, selects the newest bead of that name over all boxes not later '
     'than that time; updating an input selects the newest bead of the input\'s kind not later than the given time, and '
     '--next / --prev select the closest newer / older one relative to the input\'s recorded freeze time. '
     'Updating without a name updates every input this way, and when no such bead exists the input stays as it was.',
     ['inputs', 'histories'],
     'every distribution of versions over boxes, names, kinds and time zones, every time argument',
     'Tests use two or three versions in one box, in one time zone.',
     ['bead_cli/input.py', 'bead_cli/common.py', 'bead/box.py'],
     [('update', 'bead_cli/input.py:CmdUpdate'), ('resolve_bead', 'bead_cli/common.py')],
     'boxes, workspace metadata', 'recorded reference and loaded data after the command')

prop('C11', 'A failed or interrupted input operation never leaves wrong data posing as loaded',
     'If adding, loading, updating, unloading or deleting an input fails or is killed at any point, the workspace is '
     'still valid, every input recorded before or being recorded is still recorded with its old or new reference, and '
     'every input that counts as loaded holds exactly the complete data of its recorded bead. '
     'Repeating the command afterwards succeeds.',
     ['crash_points', 'fault_sequences'],
     'every failing or fatal file-system call during each of the commands (disk full, I/O error, kill, Ctrl-C)',
     'No test injects faults.',
     ['bead/workspace.py', 'bead_cli/input.py', 'bead/tech/persistence.py', 'bead/tech/fs.py'],
     [('load / unload', 'bead/workspace.py:Workspace'), ('metadata write', 'bead/tech/persistence.py:file_dump')],
     'workspace input directory and metadata', 'workspace state after a killed or failed command')

prop('C12', 'The configured boxes are remembered exactly, even across crashes',
     'The list of boxes behaves like a map kept across runs: adding succeeds only if neither the name nor the resolved '
     'directory is in use, forgetting removes exactly the named one, everything else and the order is kept, and nobody '
     'else\'s data is touched. '
     'If a command changing it fails or is killed at any point, the remembered list is the one before or the one after.',
     ['histories', 'crash_points', 'inputs'],
     'every history of add, forget, list and first save over any names and directories; every fault point',
     'Tests add one or two boxes and never inject faults.',
     ['bead_cli/environment.py', 'bead_cli/box.py'],
     [('Environment.save', 'bead_cli/environment.py'), ('add_box / forget_box', 'bead_cli/environment.py')],
     'user configuration file', '`bead box list` output after each command')

prop('C13', 'Commands change nothing outside what they are about',
     'Every command changes only its target: stored beads are never modified, renamed or removed by any command; '
     'discard removes exactly the workspace, unload/delete exactly that input\'s data; symbolic links inside a removed or '
     'saved tree are never followed for removal or permission changes. '
     'All other files keep their content and permissions.',
     ['histories', 'inputs'],
     'every history of commands over workspaces, boxes and bystander files with links between them',
     'Tests look only at the files they expect to change.',
     ['bead/tech/fs.py', 'bead/workspace.py', 'bead_cli/workspace.py', 'bead_cli/input.py', 'bead_cli/box.py'],
     [('rmtree', 'bead/tech/fs.py'), ('discard', 'bead_cli/workspace.py:CmdDiscard')],
     'whole directory tree around the workspace', 'snapshots of content and permissions before and after each command')

prop('C14', 'A bead\'s freeze time is the true moment it was saved, in every time zone',
     'The freeze time recorded at save denotes, to the microsecond, the moment of saving and carries the user\'s current '
     'UTC offset, in every time zone and at every moment including daylight-saving changes; reading it back gives the '
     'same moment. '
     'Later saves therefore always order after earlier ones, and a bead just saved is never rejected as coming from the '
     'future.',
     ['inputs', 'configurations'],
     'every time zone and every moment, in particular around offset changes',
     'Tests run at one moment in one zone.',
     ['bead/tech/timestamp.py', 'bead_cli/workspace.py', 'bead/ziparchive.py'],
     [('timestamp()', 'bead/tech/timestamp.py')],
     'freeze time in metadata and file name', 'freeze time of saved beads versus the (controlled) clock')

prop('C15', 'Times given by users and stored in beads are read exactly or refused',
     'Each documented time format - full and basic ISO dates and times with any offset, year, month, day, and relative '
     'differences made of weeks, days, hours, minutes and seconds - is read as exactly the moment it denotes. '
     'Anything else, including impossible dates and overflowing differences, is refused with a proper error and never '
     'silently read as some other time.',
     ['inputs'],
     'every string',
     'Tests list a dozen strings.',
     ['bead/tech/timestamp.py', 'bead_cli/common.py'],
     [('parsers', 'bead/tech/timestamp.py:parse_iso8601, parse_timedelta, time_from_user, time_from_timestamp')],
     'none', 'returned moment or error')

prop('C16', 'The web graph shows exactly the stored beads and their input links',
     'The graph built from beads contains each bead once (even if several boxes hold it) with its metadata, one '
     'placeholder for each referenced but missing bead, and exactly one link per input from the referenced bead to the '
     'bead using it (the referenced bead is the one having the name and the content id of the input). '
     'Saving the web to a file and loading it back gives the same graph, including freshness.',
     ['inputs', 'configurations'],
     'every set of beads over every set of boxes, shared beads, missing beads',
     'Tests draw a few fixed graphs.',
     ['bead_cli/web/sketch.py', 'bead_cli/web/graph.py', 'bead_cli/web/io.py', 'bead_cli/web/commands.py', 'bead_cli/web/dummy.py'],
     [('Sketch.from_beads', 'bead_cli/web/sketch.py'), ('read/write', 'bead_cli/web/io.py')],
     'in-memory graph, .web file', 'beads and edges of the graph, content of saved webs')

prop('C17', 'Freshness colours tell exactly which beads are up to date',
     'After colouring, a bead is up to date exactly if it is the newest of its name and all its inputs are up to date, '
     'out of date if it is the newest but some direct input is not up to date, superseded if a newer one of its name '
     'exists, and missing beads stay marked missing. '
     'The overall answer is positive exactly if the newest bead of every name is up to date and no superseded or missing '
     'bead is used by one of them.',
     ['inputs'],
     'every acyclic graph of beads with any number of versions and missing beads',
     'Tests colour a few fixed graphs.',
     ['bead_cli/web/sketch.py', 'bead_cli/web/cluster.py', 'bead_cli/web/freshness.py'],
     [('color_beads', 'bead_cli/web/sketch.py'), ('reset_freshness', 'bead_cli/web/cluster.py')],
     'in-memory graph', 'freshness of every bead')

prop('C18', 'Web filters keep exactly the connected clusters',
     'Filtering the web by sources keeps exactly the clusters linked to and reachable from the named ones by following '
     'input links, filtering by sinks exactly those leading to the named ones, and both together the intersection; all '
     'beads and all links between the kept clusters survive and nothing else. '
     'Reducing to heads keeps exactly the newest bead of each cluster, their direct inputs and the links from those '
     'inputs to the heads.',
     ['inputs'],
     'every graph, every set of names (known or not)',
     'Tests filter a few fixed graphs.',
     ['bead_cli/web/sketch.py', 'bead_cli/web/graph.py', 'bead_cli/web/commands.py'],
     [('set_sources / set_sinks / heads_of', 'bead_cli/web/sketch.py'), ('closure', 'bead_cli/web/graph.py')],
     'in-memory graph', 'beads and edges after each filter')

prop('C19', 'The drawing of the web is well formed and faithful',
     'The generated DOT text is syntactically valid whatever names the beads and inputs have, has one node per cluster '
     'with one row per bead in the colour of its freshness and, for every link, a path labelled with the input name from '
     'the row of the referenced bead to the row of the bead using it, and nothing else.',
     ['inputs'],
     'every graph and every name',
     'Tests compare a couple of fixed drawings.',
     ['bead_cli/web/graphviz.py', 'bead_cli/web/sketch.py'],
     [('as_dot', 'bead_cli/web/graphviz.py')],
     'none', 'parsed DOT text')

prop('C20', 'A bead keeps its identity and its input references through its whole life',
     'Editing, changing and saving a bead any number of times keeps its kind and its input references (name, kind, '
     'content id, freeze time of every input) exactly, whether or not inputs are loaded; only input commands change '
     'references. '
     'Every newly created bead gets a kind never used before, and archives, box listings with or without index and '
     'workspaces all report the same name, kind, inputs, freeze time and content id for the same bead.',
     ['histories', 'inputs'],
     'every history of new, edit, save, input commands over any number of generations',
     'Tests check single steps with at most one input.',
     ['bead/workspace.py', 'bead/bead.py', 'bead/meta.py', 'bead/ziparchive.py', 'bead/box_index.py', 'bead_cli/workspace.py'],
     [('meta in pack/unpack', 'bead/workspace.py:add_meta, bead/ziparchive.py:unpack_meta_to')],
     'bead metadata', 'metadata of workspaces, archives and search results')

prop('C21', 'Every accepted bead name works everywhere; every other name is refused up front',
     'Any name accepted when creating a workspace can be saved, and the saved bead is found under exactly this name - '
     'and no other - by searches, edit and input add, with or without an index. '
     'A name that cannot work is refused when the workspace or the input is created, leaving nothing behind and '
     'harming no box or workspace.',
     ['inputs'],
     'every string as bead name and as input name',
     'Tests use plain ASCII names.',
     ['bead_cli/workspace.py', 'bead/meta.py', 'bead/ziparchive.py', 'bead/box_rawfs.py', 'bead/box.py', 'bead_cli/input.py'],
     [('BeadName', 'bead/meta.py'), ('bead_name_from_file_path', 'bead/ziparchive.py'), ('glob', 'bead/box_rawfs.py')],
     'file names in boxes and workspaces', 'exit status, listing, files on disk')

prop('C22', 'Working with many beads at once gives each its own data',
     'However many archives are opened, read, verified and extracted in one process and in whatever interleaving, every '
     'read returns the data of the archive it was asked of. '
     'The number of simultaneously open archive files stays bounded.',
     ['histories'],
     'every interleaving of operations over any number of archives',
     'Tests never open more than a few archives.',
     ['bead/zipopener.py', 'bead/ziparchive.py'],
     [('OpenZipLRUCache', 'bead/zipopener.py')],
     'cache of open zip files', 'data returned by archives, open file descriptors')

prop('C23', 'Commands act on the innermost enclosing workspace',
     'Run without naming a workspace, commands act on the nearest valid workspace among the current directory and its '
     'parents, and on nothing when there is none; a workspace given explicitly is always the one used. '
     'Directories that only look similar to a workspace are never taken for one.',
     ['inputs', 'configurations'],
     'every nesting of workspaces, look-alikes and plain directories and every current directory',
     'Tests run in the root of one workspace.',
     ['bead/workspace.py', 'bead_cli/common.py'],
     [('for_current_working_directory', 'bead/workspace.py'), ('is_valid', 'bead/workspace.py')],
     'directory tree', 'which workspace a command acts on')

prop('C24', 'A failing command never looks successful and leaves a usable report',
     'If a command ends by any error, the program exits with a non-zero status and, unless it was interrupted or exited '
     'deliberately, leaves exactly one report file containing the arguments and the full error with its causes, and names '
     'that file to the user. '
     'Deliberate exits keep their status, interruption gives a non-zero status without a report, and successful commands '
     'exit with zero and leave no report.',
     ['inputs', 'fault_sequences'],
     'every exception, message, nesting and argument list',
     'Tests raise one exception and one interrupt.',
     ['bead_cli/main.py'],
     [('main', 'bead_cli/main.py')],
     'none', 'exit status, report file, standard error')

prop('C25', 'Concurrent use of a shared box loses no bead',
     'When several commands - saves, indexing, reindexing, searches - run at the same time on one box, in whatever '
     'interleaving, every bead whose save reported success is stored completely, no search shows anything that is not a '
     'stored bead, and after indexing once more all of them are found. '
     'No save fails because of the other commands.',
     ['schedules'],
     'every point of one command at which another one runs, for every pair of commands, plain and indexed boxes',
     'Tests run commands one after the other.',
     ['bead/box_index.py', 'bead/box.py', 'bead/workspace.py'],
     [('index updates', 'bead/box_index.py')],
     'box directory and its index', 'bead listing during and after concurrent commands')

prop('C26', 'A crash while indexing never corrupts a box',
     'If indexing, reindexing or saving into an indexed box fails or is killed at any point, all bead files are '
     'untouched, later searches show only beads that are really stored, with correct metadata, and indexing or '
     'reindexing again makes all of them found.',
     ['crash_points', 'fault_sequences'],
     'every failing or fatal file-system call during index, reindex and save',
     'No test injects faults.',
     ['bead/box_index.py', 'bead_cli/box.py'],
     [('rebuild / sync', 'bead/box_index.py')],
     'index database', 'search results after crash and after recovery')

prop('C27', 'The status report tells the truth about every input',
     'For each recorded input, status says loaded exactly if its data is present, names the bead and its freeze time if '
     'any box holds that very bead and says missing otherwise, and lists exactly the boxes that hold a bead of the same '
     'kind not newer than it, marking those where the newest such bead is the very same as exact. '
     'Status changes nothing.',
     ['inputs', 'histories'],
     'every combination of inputs, loaded states, boxes and versions',
     'Tests show one input in one box.',
     ['bead_cli/workspace.py'],
     [('print_inputs', 'bead_cli/workspace.py')],
     'none', 'text printed by `bead status`')

prop('C28', 'New and edit make a complete workspace or none that could be mistaken for one',
     'If new or edit fails or is killed at any point, whatever is left is either refused by the other commands or a '
     'complete workspace: exactly the code, the input references and the kind of the bead and, with --review, all of '
     'its output, so that saving it can never store a part of a bead as its next version. '
     'Nothing else is changed, and once what is left has been discarded the command can be repeated.',
     ['crash_points', 'fault_sequences'],
     'every failing or fatal file-system call during new, edit and edit --review, for every bead',
     'No test injects faults into these commands.',
     ['bead/workspace.py', 'bead/bead.py', 'bead_cli/workspace.py', 'bead/tech/persistence.py'],
     [('creation', 'bead/workspace.py:Workspace.create'), ('unpack', 'bead/bead.py:Archive.unpack_to'), ('edit', 'bead_cli/workspace.py:CmdEdit')],
     'workspace directory', 'what `bead save` stores from, or says about, the directory left behind')

prop('C29', 'A web command line does its steps in order, or nothing if it is malformed',
     'The sub-commands of a web command line are done in the order given, each on the result of the ones before, '
     'starting with the beads of all boxes (unless it starts with load): every file written is what running the steps '
     'one by one with save and load between them gives, load replaces everything before it, save, drawings and view '
     'change nothing, and whatever a bead is named it can be used in a filter. '
     'A line that can not be parsed is refused and does nothing at all, and a failing step ends the line with an error '
     'after which no further step is done.',
     ['inputs', 'histories'],
     'every sequence of sub-commands, every name of beads and files, every place of a mistake or of a failing step',
     'Tests run a few two or three step lines.',
     ['bead_cli/web/commands.py', 'bead_cli/web/sketch.py', 'bead_cli/web/io.py'],
     [('parser', 'bead_cli/web/commands.py:parse_commands'), ('pipeline', 'bead_cli/web/commands.py:CmdWeb.run')],
     'none', 'files written, exit status')

prop('C30', 'A box that can not be accessed never stops work with the other boxes',
     'While a configured box is missing, replaced by something that is not a directory, or not accessible for lack of '
     'permissions - itself, a directory above it, or its index - every command that does not name it does exactly what it '
     'would do if this box was empty: beads of the other boxes are found, loaded, saved and shown, and boxes can be listed '
     'and forgotten. Saving into a box that is not there or can not be written fails and changes nothing. '
     'As soon as the box is accessible again, all its beads are there unchanged and are found.',
     ['inputs', 'histories', 'fault_sequences'],
     'every box that is not accessible, every way of not being accessible, every history of commands meanwhile',
     'Tests use boxes that are there and can be read and written.',
     ['bead/box.py', 'bead/box_index.py', 'bead/box_rawfs.py', 'bead_cli/environment.py', 'bead_cli/box.py'],
     [('choice of resolver', 'bead/box.py:Box._create_resolver'), ('NullResolver', 'bead/box.py:NullResolver'),
      ('file scan', 'bead/box_rawfs.py:RawFilesystemResolver._glob_bead_files')],
     'boxes and their permissions', 'exit status, output, workspaces, box directories')

prop('C31', 'Names of directories and the kind of terminal make no difference',
     'Whatever the names of the home, configuration, box and workspace directories, of boxes, beads and inputs are - spaces, '
     'special characters of any kind, for directories even names that are not valid text - and whatever encoding the output '
     'of the program is shown in, every command has the same effects, exit status and messages (apart from the names) as with '
     'plain names on an UTF-8 terminal. Names of beads or inputs that can not be used are refused before anything is changed.',
     ['inputs', 'configurations', 'histories'],
     'every name of directories, boxes, beads and inputs, every encoding of the output, every history of commands',
     'Tests use plain ASCII names, and output that can show anything.',
     ['bead_cli/main.py', 'bead/box_index.py', 'bead_cli/environment.py', 'bead_cli/box.py', 'bead/box_rawfs.py', 'bead_cli/web/commands.py'],
     [('output', 'bead_cli/main.py:show_any_text'), ('database paths', 'bead/box_index.py:connect_readonly'),
      ('name patterns', 'bead/box_rawfs.py'), ('box locations', 'bead_cli/environment.py:Environment')],
     'none', 'exit status, output, files')

prop('C32', 'A bead saved while its workspace is being changed is intact or not saved',
     'When files, directories or the inputs of a workspace are changed while it is being saved - appended to, rewritten, '
     'replaced, removed, added - save either fails and leaves nothing in the box, or stores an intact bead that can be '
     'opened and loaded. Every file in this bead that was only ever replaced as a whole is one of its versions, files that '
     'were there all the time are there, and the inputs are those recorded at one moment.',
     ['inputs', 'schedules'],
     'every change of the workspace, at every moment of saving it',
     'Tests never change a workspace while a command is working on it.',
     ['bead/workspace.py'],
     [('archiving', 'bead/workspace.py:_ZipCreator.add_file'), ('clean up', 'bead/workspace.py:Workspace.pack')],
     'none', 'exit status, box directory, archives')

prop('C33', 'The size of beads is limited by the storage, not by memory or file format',
     'Workspaces and beads with files larger than the memory available to the program, with files of several gigabytes, and '
     'with more files than fit in a plain zip archive are saved, verified, edited, loaded as inputs, indexed and listed like '
     'any other. Their code and output are the same afterwards, byte for byte, and no command needs more memory for larger files.',
     ['inputs', 'histories'],
     'every size and number of files, every history of commands on them',
     'Tests only have files of a few bytes.',
     ['bead/workspace.py', 'bead/ziparchive.py', 'bead/tech/securehash.py'],
     [('archiving', 'bead/workspace.py:_ZipCreator'), ('extracting', 'bead/ziparchive.py:ZipArchive.extract_file'),
      ('hashing in blocks', 'bead/tech/securehash.py:file')],
     'none', 'exit status, files, limited memory')

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
import re
for p in P:
    n = len([s for s in re.split(r'(?<=[.])\s+(?=[A-Z])', p['statement']) if s.strip()])
    assert n <= 3, (p['id'], n)
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
out.write_text(''.join(json.dumps(p, ensure_ascii=True) + '\n' for p in P))
print(len(P), 'properties')
