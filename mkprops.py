#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state: a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

TREE = 'src/ringhopper/src/tag/tree.rs'
DEP = 'src/ringhopper/src/tag/dependency.rs'
VER = 'src/ringhopper/src/tag/verify.rs'
THR = 'src/invader/src/threading.rs'
UTIL = 'src/invader/src/util.rs'
V = 'src/invader/src/verb/'

prop('P01', 'A tag file on disk is always one complete version',
 'Whatever tool is editing tags, and wherever it is killed or a write, create or rename fails (including a disk that becomes full and torn or short writes), every tag file in every tags folder is byte-for-byte either the version it had before the run or the complete new version the tool meant to save. A half-written, empty or mixed tag file never takes the place of the old one.',
 ['crash_points', 'fault_sequences', 'schedules'],
 'every operation at which the process can be killed, every torn length of a write, every failing file operation, disk-full budgets, any worker count and schedule',
 'Tests save a tag once on a healthy disk; the guarantee is about the state left behind by a save that did not finish, at any of its operations.',
 [TREE], [('tag save', TREE + ' VirtualTagsDirectory::write_tag_to_directory')], ['bytes of every tag file after the run'])
prop('P02', 'What the tools report about a save is what is on disk',
 'When an editing tool reports a tag as processed, the file at its destination holds exactly the new tag; when it reports a tag as skipped, the destination was already identical to it; when it reports a failure, the destination is unchanged. This holds when writes are short or interrupted (which must be absorbed) and when they fail for lack of space, permission or an I/O error (which must be reported for that tag only).',
 ['fault_sequences', 'schedules'], 'any set of failing, short or interrupted file operations at any position, any worker count and schedule',
 'A test never sees write() fail or return short; an ignored error or a misattributed result only shows under a fault at the right operation.',
 [TREE, THR, 'src/invader/src/verb/bludgeon.rs', 'src/invader/src/verb/convert.rs', 'src/invader/src/verb/refactor_groups.rs'], [('tag save', TREE), ('per-tag result accounting', THR)], ['stdout lines', 'exit status', 'bytes of every tag file'])
prop('P03', 'Batch results do not depend on worker count or scheduling',
 'For every batch tool, the final contents of the tags folders and the multiset of reported lines are the same for any number of worker threads and any interleaving of them, namely what processing each matching tag by itself gives.',
 ['schedules', 'configurations'], 'every interleaving of the worker threads, every worker count, every directory listing order and hash seed, any population of tags',
 'Unit tests run single-threaded on one tag; a race between workers needs a particular interleaving.',
 [THR, TREE, UTIL], [('work queue shared by workers', THR + ' do_with_threads'), ('per-worker contexts', THR + ' ThreadingContext')], ['bytes of all files', 'stdout lines'])
prop('P04', 'Each matching tag is processed exactly once and counted exactly once',
 'A batch run acts on and reports each tag that matches the filter (and type) exactly once, no other tag at all, and its closing summary (processed, total, errors) agrees with the individual reports; a run in which nothing viable matched says so and fails. Every reported line is written whole, never mixed with another worker\'s line and never lost.',
 ['schedules', 'configurations', 'inputs'], 'every interleaving, worker count, directory listing order, number of stacked tags folders, and filter, including tags whose processing fails',
 'Exactly-once under concurrency, over-full or under-full work queues and line atomicity are schedule properties.',
 [THR, UTIL, TREE], [('work queue and counters', THR), ('locked line output', UTIL + ' StdoutLogger')], ['stdout lines', 'exit status'])
prop('P05', 'One unreadable tag only affects its own result',
 'If a tag cannot be read (I/O error, permission error, truncated or corrupt contents, even contents whose checksum is absent or that are a tag of another group), a batch run reports a failure for exactly that tag, leaves its file untouched, and processes every other tag exactly as if the bad one were not there. The run is not aborted.',
 ['fault_sequences', 'schedules', 'inputs'], 'any subset of tags unreadable at any read, any corruption of stored bytes (bit flips, truncation, garbage), any worker count and schedule',
 'Requires disk faults in the middle of a concurrent batch; tests parse intact files.',
 [THR, TREE, 'src/ringhopper-primitives/src/tag.rs', 'src/ringhopper-primitives/src/primitive/data.rs'], [('per-tag error isolation', THR), ('tag parsing', 'src/ringhopper-primitives/src/tag.rs')], ['stdout lines', 'exit status', 'bytes of all files'])
prop('P06', 'Copy-on-write never touches the source folders',
 'When a copy-on-write folder is given, no file or folder inside the source tags folders is created, changed or removed, under any fault, kill point or schedule; a tag that would change is saved in the copy-on-write folder at the same relative path, holding exactly what an in-place run would have saved.',
 ['fault_sequences', 'crash_points', 'schedules', 'configurations'], 'any editing tool, any fault or kill point, any worker count, any stack of source folders',
 'The source tree must stay intact on every failure path, not only on success.',
 [TREE], [('copy-on-write output selection', TREE + ' VirtualTagsDirectory::write_tag_to_directory')], ['bytes and names below every source folder and the copy-on-write folder'])
prop('P07', 'Read-only operations never modify anything',
 'Listing, tree, compare, verify, info and archive operations leave every tags folder, data folder and map byte-for-byte unchanged (an archive only writes its own output file), under any fault, kill point, schedule or input.',
 ['fault_sequences', 'crash_points', 'schedules', 'inputs'], 'every read-only operation with any failing, short or interrupted file operation or kill point, any worker count',
 'A stray write on an error path is only visible when the error happens.',
 [V + 'dependency_list.rs', V + 'compare.rs', V + 'verify_scenario.rs', V + 'archive.rs', VER], [('read paths of the tag tree', TREE)], ['bytes and names of the whole input tree'])
prop('P08', 'Moving tags updates every reference to them, once, under any schedule',
 'After a successful batch move or rename of tags, every moved tag is at its new path and gone from its old one, every reference anywhere in the tree to an old path names the corresponding new path, and nothing else in any tag changed; for any worker count and interleaving. If the rewritten references of a tag cannot be saved, that tag is reported and stays as it was, and every other one is still updated.',
 ['schedules', 'inputs', 'fault_sequences'], 'any tag population and reference graph over all tag types (self references and cycles included), single or recursive moves, with and without moving files, any worker count and interleaving',
 'References are rewritten by several threads through a shared cache; a lost update or a tag missed by the work split needs a particular interleaving and graph.',
 [DEP, V + 'refactor_paths.rs', TREE], [('parallel reference rewriting through a caching tree', DEP + ' refactor_paths_for_tag_tree'), ('deferred commit', TREE + ' CachingTagTree::commit_all')], ['bytes of every tag file', 'names of all files'])
prop('P09', 'A move that fails half-way is rolled back',
 'If moving any of the tag files fails, the operation reports failure and every tags folder is left with exactly the tag files and contents it had before, whichever of the moves, folder creations or folder removals failed. If moving one of the files back fails as well, that file stays whole at its new path and is reported, and all others are still moved back.',
 ['fault_sequences', 'schedules'], 'a failure of any one of the rename, folder creation or folder removal operations of the move phase, and of one step of the rollback, any tree shape, any worker count',
 'The rollback path only runs when a rename fails after others succeeded.',
 [DEP], [('rename undo log', DEP + ' refactor_paths_for_tag_tree')], ['exit status', 'bytes and names of all files'])
prop('P10', 'A move never loses a tag, even when killed',
 'At any point at which a move is killed or any of its file operations fails, every tag that existed before still exists, complete, at its old or its new path (with its references either as before or as rewritten), and no unrelated tag is affected.',
 ['crash_points', 'fault_sequences', 'schedules'], 'every file operation of the move as kill point or failing operation, torn writes, disk full',
 'Conservation across a multi-file, multi-phase operation can only be judged at the intermediate states.',
 [DEP, TREE], [('rename then rewrite then commit', DEP)], ['bytes and names of all files'])
prop('P11', 'A caching tag tree hands every thread the same tag',
 'However threads interleave opening, reading and editing tags through a shared caching tree, all of them get the same shared object per tag, the backing store is read at most once per successfully cached tag, an edit made under the tag\'s lock is visible to every later open, and a failed load is reported and not remembered.',
 ['schedules', 'histories', 'fault_sequences'], 'all interleavings of concurrent opens, copies, edits, saves and evictions on any set of tags, with loads that fail at any point',
 'Double loading, lost edits and stale copies are races between a cache miss and another thread.',
 [TREE], [('tag cache', TREE + ' CachingTagTree')], ['history of opens and values read'])
prop('P12', 'Deferred saving writes nothing until committed, then everything',
 'With the deferred strategy, the backing store sees no write before a commit; committing one tag saves exactly that tag\'s current value; committing all tries every cached tag, saves each current value, and returns exactly the tags whose save failed with their errors, the rest being saved. With the immediate strategy, a successful save is in the backing store before it returns, and a failed one leaves the cached value as it was.',
 ['histories', 'fault_sequences', 'schedules'], 'all histories of opens, edits, saves, evictions and commits, with any subset of saves failing',
 'Needs histories combined with failing saves.',
 [TREE], [('write strategies', TREE + ' CachingTagTree')], ['writes seen by the backing store', 'returned errors'])
prop('P13', 'A shared tag tree is linearizable',
 'Concurrent opens, saves, existence checks and listings through a thread-shared tag tree behave as if executed one at a time in some order consistent with real time: no torn value, no lost save, and a failing operation has no effect on others.',
 ['schedules', 'histories'], 'all interleavings of concurrent operations from any number of threads, with failing operations',
 'Linearizability is a property of concurrent histories.',
 [TREE], [('mutex around the tree', TREE + ' AtomicTagTree')], ['invocation/response history'])
prop('P14', 'Verification is complete and independent of scheduling',
 'Verifying a scenario checks every tag it depends on and reports the same findings for every tag, for any number of threads and any interleaving of them; verifying several scenarios in one run gives each the findings it gets alone.',
 ['schedules', 'inputs'], 'all interleavings of the verifying threads, any thread count, any dependency graph over the tag types that are checked',
 'A tag whose lock happens to be held at the wrong moment can be skipped by everybody; one lucky schedule proves nothing.',
 [VER, V + 'verify_scenario.rs'], [('work distribution by try_lock', VER), ('shared caching tree', V + 'verify_scenario.rs')], ['reported findings per tag', 'map of results'])
prop('P15', 'Every operation terminates',
 'Every tool finishes within a bounded number of steps once faults stop: no interleaving of its threads deadlocks or livelocks, no reference cycle among tags makes it loop, and spurious wake-ups or clock jumps do not change its outcome.',
 ['schedules', 'inputs', 'fault_sequences'], 'all interleavings, tag graphs with self references and cycles, spurious wake-ups, clock jumps, transient faults',
 'Deadlock and livelock need particular interleavings and graphs.',
 [VER, DEP, THR, TREE], [('lock nesting', VER), ('graph traversal', DEP), ('cache lock held while loading', TREE)], ['deadlock detector and step budget of the simulator', 'exit status'])
prop('P16', 'Stacked tags folders act as one folder, in the given precedence',
 'Whatever order the operating system lists directories in, each tag is found exactly once in a stack of tags folders, the first folder that has it supplies its contents, a changed tag is saved back where it was found, and files that are not tags are ignored.',
 ['configurations', 'inputs', 'fault_sequences'], 'all listing orders, any overlap between any number of tags folders, nested folders, stray files with other extensions, a folder that cannot be listed',
 'Listing order is chosen by the file system; a test machine only ever shows one.',
 [TREE], [('directory merge', TREE + ' VirtualTagsDirectory::files_in_path'), ('precedence', TREE + ' path_for_tag')], ['reported tags', 'bytes read and written'])
prop('P17', 'Dependency results are exact and reproducible',
 'The dependencies of a tag (direct or recursive), its dependents, and the tags a scenario needs are exactly those implied by the references stored in the tag files, independent of hash seeds, listing order, cycles or duplicate references; if a needed tag cannot be read, the operation fails and says so instead of returning a shorter answer.',
 ['configurations', 'inputs', 'fault_sequences'], 'any reference graph over all tag types including cycles, self references and missing tags, all hash seeds and listing orders, an unreadable tag anywhere',
 'Hash-order dependence and silently truncated closures appear only for some seeds, graphs and faults.',
 [DEP, V + 'dependency_list.rs', V + 'dependency_tree.rs'], [('closure', DEP + ' recursively_get_dependencies_for_tag_with_tag_tree')], ['listed tags', 'exit status'])
prop('P18', 'An archive holds exactly the needed tags, intact',
 'An archive that is reported as written contains each tag of the requested closure exactly once with exactly the bytes that tag has, in an order that does not depend on hashing or listing order; any read or write failure makes the operation fail instead, and a failed or killed write leaves under the name of the archive what was there before or the whole archive.',
 ['fault_sequences', 'configurations', 'inputs'], 'any closure, all hash seeds and listing orders, short or interrupted I/O, any failing read or write, disk full',
 'A dropped member or unreported write error needs a fault or a seed.',
 ['src/ringhopper/src/tag/archive.rs', V + 'archive.rs'], [('archive writer', 'src/ringhopper/src/tag/archive.rs')], ['archive members', 'exit status'])
prop('P19', 'Extraction is complete, schedule-independent and does not overwrite',
 'Extracting from a cache file yields the same tag files for any worker count and interleaving; without the overwrite option a tag file that already exists is never changed; every tag reported as extracted is on disk, complete and readable, and holds the values, references and data that the cache file stores for it (apart from the conversions that the formats require, such as units and byte order).',
 ['schedules', 'fault_sequences', 'crash_points'], 'all interleavings, any worker count, any filter, any pre-existing files, write faults and kill points during extraction',
 'Worker races and partial extractions need schedules and faults.',
 [V + 'extract.rs', TREE, THR], [('map-to-tags batch', V + 'extract.rs')], ['bytes of the extracted files', 'stdout lines'])
prop('P20', 'Data recovery stays inside the data folder and is complete',
 'Recovering source data from tags writes only below the chosen data folder, never replaces an existing file unless told to, and every file reported as recovered is complete; for any worker count and interleaving, and under write faults.',
 ['schedules', 'fault_sequences', 'inputs'], 'any tag contents (including hostile names stored in tags), all interleavings, write faults and kill points',
 'Needs hostile tags, two workers racing for the same output, or a failing disk.',
 ['src/ringhopper/src/tag/recover.rs', V + 'recover.rs'], [('data file writer', 'src/ringhopper/src/tag/recover.rs')], ['names and bytes of all files below and outside the data folder'])
prop('P21', 'A damaged or unreadable map never yields wrong tags',
 'Loading a cache file through short or interrupted reads gives the same result as an undisturbed load. If the map is truncated, corrupt or fails to read, the operation reports an error or extracts only intact tags, without crashing; no tag that differs from the one in the undamaged map is extracted where the damage is covered by the checksum of the map. Where the format has no checksum (pixel and sample data, resource files, maps whose checksum is disabled) the tool still ends regularly, writes only complete tag files, and tags that do not use the damaged part come out unchanged; a missing or unreadable resource file fails the tags that need it instead of extracting them without their data. A compressed (Xbox) map whose compressed data is cut off or damaged is refused; a map that has two tags of the same path and group is refused. What `info` says about a map is true: name, engine, number of tags, sizes, and the checksum that its contents really have, which a damaged map is not said to match.',
 ['fault_sequences', 'inputs'], 'every read of every map file failing or short, truncation at any length, bit flips anywhere in the map',
 'Needs faults at each read and arbitrary damage.',
 ['src/ringhopper/src/map.rs', 'src/ringhopper/src/map/gearbox.rs', 'src/ringhopper/src/map/util.rs'], [('map loading', 'src/ringhopper/src/map.rs load_map_from_filesystem')], ['exit status', 'bytes of extracted tags'])
prop('P22', 'Comparison results do not depend on scheduling or order',
 'Comparing two tag sources reports exactly the tags both have, once each and as equal or different with the same details as when they are compared alone, for any worker count, interleaving, hash seed and listing order; a common tag that cannot be read on either side is reported as failed and never as equal.',
 ['schedules', 'configurations', 'fault_sequences'], 'all interleavings, worker counts and listing orders, unreadable tags on either side',
 'Needs schedules and read faults.',
 [V + 'compare.rs'], [('parallel comparison', V + 'compare.rs')], ['reported lines'])
prop('P23', 'Rerunning after a crash converges',
 'After a batch edit is killed at any point, simply running it again to completion gives the same tags as a run that was never killed, and running it once more changes nothing and reports nothing as changed.',
 ['crash_points', 'schedules', 'histories'], 'every kill point (repeatedly), any worker count, every batch editing tool',
 'Recovery is only exercised by killing the tool.',
 [TREE, THR], [('skip when the file on disk matches', TREE + ' write_tag_to_directory')], ['bytes of all files', 'stdout lines'])
prop('P24', 'Corrupt tag files are never accepted',
 'A tag file whose stored bytes were damaged (a flipped bit, a burst or a truncation in the data or a meaningful header field of a checksummed tag, or the tag of another group in its place), or whose read returned damaged data, is rejected by every tool that reads tags strictly: it is never listed as good, copied, archived, compared as equal or rewritten with a fresh checksum.',
 ['inputs', 'fault_sequences'], 'every bit position and truncation length of stored or in-flight tag data, every strict tool',
 'The number of damage patterns is unbounded and includes damage between disk and reader.',
 ['src/ringhopper-primitives/src/tag.rs', TREE], [('checksum validation', 'src/ringhopper-primitives/src/tag.rs TagFile::validate_crc32')], ['reported failures', 'bytes of all files'])
prop('P25', 'Imports build tags only from completely read sources',
 'Building string lists, collections or colour plates from data files gives a tag made from the whole source, the same for any hash seed and listing order and through short or interrupted reads; if a source cannot be read completely, that import is reported as failed and no tag is created or changed for it.',
 ['fault_sequences', 'configurations', 'inputs'], 'every read or listing of source data failing, short or interrupted, any listing order',
 'Needs failing reads of source data and listing orders.',
 [V + 'unicode_strings.rs', V + 'tag_collection.rs', V + 'plate.rs', 'src/ringhopper/src/tag/unicode_string_list.rs'], [('source import', V + 'unicode_strings.rs')], ['stdout lines', 'exit status', 'bytes of all files'])

# ---- pure functions: no concurrency, time, I/O or multi-party behaviour (not_applicable in MANIFEST.json)
PRIM = 'src/ringhopper-primitives/src/'
prop('N01', 'Tag serialization round-trips every structure',
 'For every tag structure and every value of it, writing the tag to bytes and reading them back gives the same value, and reading then writing a canonical file gives the same bytes.',
 ['inputs'], 'all values of all tag structures', 'Unbounded value space per structure; tests sample a few.',
 [PRIM + 'tag.rs', PRIM + 'primitive/array.rs', PRIM + 'primitive/data.rs'], [('tag codec', PRIM + 'tag.rs')], ['bytes'])
prop('N02', 'Tag paths and filters follow their documented grammar',
 'A tag path is accepted exactly when it is a valid relative path with a known group, paths normalise to one internal form, and a wildcard filter matches exactly the paths its * and ? expansion denotes.',
 ['inputs'], 'all strings', 'Unbounded string space.',
 [PRIM + 'primitive/path.rs', TREE], [('path validation', PRIM + 'primitive/path.rs'), ('wildcards', TREE + ' TagFilter')], ['return values'])
prop('N03', 'Bitmap colour conversion and swizzling are lossless where they claim to be',
 'Swizzling followed by deswizzling is the identity for every size, depth and face count, and expanding a pixel format to 32 bits and back gives the same pixel.',
 ['inputs'], 'all bitmap sizes, types and formats', 'Unbounded input space.',
 ['src/ringhopper/src/tag/bitmap.rs', 'src/ringhopper/src/tag/bitmap/swizzle.rs'], [('swizzle', 'src/ringhopper/src/tag/bitmap/swizzle.rs')], ['bytes'])
prop('N04', 'Nudging floats restores the decimal value and is idempotent',
 'Nudging a float gives the value the shortest nearby decimal denotes, never moves it by more than the documented error, and nudging again changes nothing.',
 ['inputs'], 'all float bit patterns', '2^32 inputs in context; tests sample a few.',
 ['src/ringhopper/src/tag/nudge.rs'], [('nudge', 'src/ringhopper/src/tag/nudge.rs')], ['return values'])
prop('N05', 'Defaults are stripped and restored consistently',
 'Removing default values from a tag and adding them back gives the tag the game would see, and removing them twice is the same as once.',
 ['inputs'], 'all values of all tag structures with defaults', 'Unbounded value space.',
 ['src/ringhopper/src/tag/default.rs'], [('defaults', 'src/ringhopper/src/tag/default.rs')], ['return values'])
prop('N06', 'Vertex compression stays within its error bound',
 'Compressing and decompressing model and structure vertices changes each component by no more than the precision of the compressed form, and a second round trip changes nothing.',
 ['inputs'], 'all vertices', 'Unbounded numeric input.',
 ['src/ringhopper/src/tag/model.rs', 'src/ringhopper/src/tag/scenario_structure_bsp.rs'], [('vertex codec', 'src/ringhopper/src/tag/model.rs')], ['return values'])
prop('N07', 'Group conversion keeps every field both groups share',
 'Converting a tag to a compatible group keeps all fields the two groups have in common and yields a valid tag of the target group.',
 ['inputs'], 'all convertible pairs of groups, all values', 'Unbounded value space.',
 ['src/ringhopper/src/tag/convert.rs', 'src/ringhopper/src/tag/model.rs'], [('conversion', 'src/ringhopper/src/tag/convert.rs')], ['return values'])
prop('N08', 'Definitions and engines are internally consistent',
 'Every structure in the definition files has the size its fields add up to, every referenced type and engine exists, and every engine has the map parameters its cache version needs.',
 ['inputs'], 'all definition files compiled into the tool', 'It is a static property of a fixed set of files, decided once at build time.',
 ['src/ringhopper-definitions/src', 'src/ringhopper-engines/src'], [('definition parser', 'src/ringhopper-definitions/src')], ['parsed definitions'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
