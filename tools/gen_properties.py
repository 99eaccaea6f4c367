"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, pathlib
OUT = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
R = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    R.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=['augpathlib/' + f for f in files],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where='augpathlib/' + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


P('P01', 'Existence predicates turn only "not there" errors into False',
  """exists, is_file, is_dir and is_symlink of an augmented path answer what pathlib answers, and when the
  underlying query fails they return False exactly for ENOENT, ENOTDIR, EBADF and ELOOP (plus ENAMETOOLONG on
  darwin and winerror 123 on Windows); every other error (EACCES, EIO, ...) propagates to the caller.
  is_broken_symlink is exactly "is a symlink and does not exist", exists_not_symlink is exactly "exists and is
  not a symlink".""",
  ['inputs', 'fault_sequences'], 'every path and every errno the operating system can report for it',
  """The tests only see paths that exist, are missing, or loop; no test makes stat fail with EACCES, EIO or any
  other errno, so swallowing a real error (reporting an unreadable file as absent) passes them.""",
  ['core.py'], [('AugmentedPath.exists/is_file/is_dir/is_symlink', 'core.py'), ('_ignore_error', 'core.py')])

P('P02', 'Recursive removal refuses dangerous paths before deleting anything',
  """rmtree never deletes anything when called on a relative path, and, unless its DANGERZONE argument is the
  literal True, never when called on a top level path (two or fewer parts), on a path of three or fewer parts
  containing 'home', or on the current working directory: it raises WillNotRemovePathError instead, and for nothing else. The refusal is
  raised before the first deletion and is never suppressed by ignore_errors nor handed to an onerror callback,
  also when it is raised for a nested entry; subclasses keep the same guard.""",
  ['inputs', 'configurations'], 'every path and every value of ignore_errors, onerror and DANGERZONE',
  """A test cannot safely attempt to remove / or /home, so the existing ones try a couple of refusals with default
  flags; truthy-but-not-True flags and the combinations with ignore_errors and onerror are untested.""",
  ['core.py', 'repo.py'], [('AugmentedPath.rmtree', 'core.py'), ('RepoPath.rmtree', 'repo.py')],
  observe=['OSError/WillNotRemovePathError raised', 'unlink and rmdir calls'])

P('P03', 'Recursive removal never reaches through a symlink and reports failures',
  """rmtree never descends into, lists or removes the target of a symbolic link: called on a link to a directory
  it fails without deleting, and links met inside the tree are unlinked themselves. Every entry of the directory is
  removed before the directory itself, with the caller's flags handed down unchanged. A failure is reported to
  onerror (with the path that failed and the error) when one is given, raised when not, and silent only when ignore_errors is true.""",
  ['inputs', 'fault_sequences'], 'every directory tree (with links anywhere in it) and every failing deletion',
  """Tests remove a few small trees; symlink-to-directory children, failures half way through and flag propagation
  to nested levels are not exercised.""",
  ['core.py', 'repo.py'], [('AugmentedPath.rmtree', 'core.py'), ('RepoPath.rmtree', 'repo.py')],
  observe=['unlink and rmdir calls', 'onerror callback'])

P('P04', 'Empty directory removal removes only empty directories',
  """rmdirtree raises NotADirectoryError on a symlink without touching anything, never unlinks a file or link, and
  attempts to remove a directory only when the bottom-up walk showed no files in it and every one of its
  subdirectories was already removed by this call, and then always, so that no folder that holds only empty folders is left. It uses only the non-recursive directory removal.""",
  ['inputs'], 'every directory tree', """The test builds one tree; mixes of empty and non-empty siblings at several
  depths, and links to directories, are unbounded.""",
  ['core.py'], [('AugmentedPath.rmdirtree', 'core.py')], observe=['rmdir calls'])

P('P05', 'Copying never overwrites without force',
  """copy_to, copy_from, copy_outto and copy_infrom write to a target only when it neither exists nor is a (possibly
  broken) symlink, or when the caller passed force; otherwise PathExistsError is raised and the target is left as it
  was. The wrapper forms hand the caller's force down unchanged, return what the primitive returns, and
  copy_outto/copy_infrom fail with NotADirectoryError, copying nothing, when the destination is not a directory; with copy_cache_meta, and only then, a local copy is given the metadata of the cache of its source after the data.""",
  ['inputs', 'configurations'], 'every source, target state and force value, on plain and local paths',
  """Tests copy to fresh targets and once onto an existing file; broken symlink targets, force forwarding through
  every wrapper and both class families are not covered.""",
  ['core.py'], [('AugmentedPath.copy_to/copy_from/copy_outto/copy_infrom', 'core.py'), ('LocalPath.copy_to/copy_from', 'core.py')],
  observe=['data written to the target'])

P('P06', 'Writing data never truncates before the source has produced its first chunk',
  """When data is written to a local path from a generator, the destination is opened for writing (truncated) only
  after the first chunk has been obtained, so a source that fails at once leaves the old content intact. Then every
  chunk is written, once each and in order; an empty source gives an empty file, and the chained writer hands on
  exactly the chunks it wrote. The metadata a cache had before is written again when writing the data lost it.""",
  ['inputs', 'fault_sequences'], 'every chunk sequence, including the empty one and one that fails at any chunk',
  """Tests write one or two small chunks; failing and empty generators are not tried, and the error window is
  between two statements.""",
  ['core.py'], [('LocalPath.data setter, _write_chunks*, _data_setter', 'core.py')],
  observe=['open for writing', 'write calls'])

P('P07', 'Data reads and digests cover every byte exactly once',
  """Reading the data of a local path yields every chunk up to end of file, once and in order; a ranged read yields
  for each requested range in order everything from its start to its end, or to end of file for an open range. checksum, every extra
  cypher and the etag are fed every chunk, once and in order, and a digest is only taken after the last chunk;
  with extra cyphers the digests come back in the order main, then extras.""",
  ['inputs'], 'every file length, chunk size and range, including ranges exactly one chunk long',
  """Tests use a handful of lengths and never call the ranged reader; boundary lengths (an exact multiple of the
  chunk size) are exactly what samples miss.""",
  ['core.py', 'utils.py'], [('LocalPath.data, _data, etag', 'core.py'), ('AugmentedPath.checksum', 'core.py')],
  observe=['yielded chunks', 'digest updates'])

P('P08', 'Atomic swap exchanges exactly the two named paths or nothing',
  """swap changes the file system only when both paths exist and are on the same device, otherwise it raises
  (FileNotFoundError, ValueError) first. On linux it is a single renameat2 call with the exchange flag whose two
  names are resolved the way the caller's own paths are (relative to the working directory), no descriptor outlives
  the call, and a failing call raises OSError; on any other system NotImplementedError is raised.""",
  ['inputs', 'fault_sequences'], 'every pair of paths, relative or absolute, and every system call failure',
  """The test swaps two absolute files; relative operands, directories, failure of the second open and the errno of a
  failed call are not sampled.""",
  ['core.py', 'swap.py'], [('AugmentedPath.swap', 'core.py'), ('swap_linux', 'swap.py')], observe=['renameat2 system call'])

P('P09', 'Falling back to a non-atomic swap loses neither path',
  """swap_carefree tries the atomic swap first and, only if that raised, exchanges the paths by renaming target to a fresh private
  directory on the target's own file system, self to target, and the stashed target to self, in that order, then removes the directory. No step
  deletes or overwrites either of the two files, and a failing step is reported to the caller; the directory is left behind only with a file in it.""",
  ['inputs', 'crash_points', 'fault_sequences'], 'every pair of paths and every failing step of the fallback',
  """On the test machine the atomic swap succeeds, so the fallback runs at most once and never fails half way.""",
  ['core.py'], [('AugmentedPath.swap_carefree', 'core.py')], observe=['rename calls'])

P('P10', 'Working directory changes are always undone',
  """Entering a directory path as a context changes into it and leaving it (normally or by exception, also when
  the directory is gone) changes back to the directory that was current on entry, never swallowing the exception.
  pushd records the current directory before changing and refuses non-directories without recording; popd removes the
  N-th entry from the top, changes to that same entry and returns it, and an empty stack is left alone.""",
  ['histories', 'fault_sequences'], 'every sequence of enter, leave, pushd and popd, with any exception in between',
  """Tests use one block and one push/pop pair; an exception in the block, a directory removed while inside and popd N are
  not covered.""",
  ['core.py', 'caches.py'], [('AugmentedPath.__enter__/__exit__/pushd/popd', 'core.py'), ('_CachePath.__enter__', 'caches.py')],
  state=[('directory stack', 'pushd/popd stack', 'AugmentedPath class')], observe=['chdir calls'])

P('P11', 'Extended attributes are a dumb byte store with one missing-key error',
  """setxattr rejects any value that is not bytes with TypeError before writing; every operation uses the namespace the
  caller gave, on the path itself. Reading a missing key raises NoStreamError and deleting one is silent unless
  fail is set; every other operating system error propagates as it is, and setxattrs writes every pair it is given.
  The Windows stream implementation keeps the same contract.""",
  ['inputs', 'fault_sequences', 'configurations'], 'every key, value, namespace and errno, on both implementations',
  """Tests run one implementation on one file system with valid values; EACCES, ENOENT or ERANGE from the attribute call and
  the whole Windows implementation never run.""",
  ['core.py'], [('XattrHelper', 'core.py'), ('ADSHelper', 'core.py')], observe=['xattr calls', 'exceptions'])

P('P12', 'Sparse markers are written and read under one name',
  """Marking a path sparse, clearing the mark and asking for it use the same key (or the same marker file), the
  answer is looked up on the path itself and then on its ancestors, and the search stops at the root.""",
  ['inputs', 'configurations'], 'every path depth and marker placement, for attribute and marker-file storage',
  """No test creates a nested tree with a mark higher up.""",
  ['core.py', 'caches.py'], [('EatPath._sparse_root/_mark_sparse/_clear_sparse', 'core.py'), ('_CachePath sparse marker', 'caches.py')])

P('P13', 'Every metadata field survives every storage format',
  """Every metadata field is named consistently across the metadata object, the extended attribute format and
  the current symlink format: each field the object carries is written by both formats (id as the symlink's first part) and every field they write
  has an encoding and is one the object accepts back. Fields a reader must convert (sizes, times, checksums, etags, errors) are converted by
  each reader the way the writer of that format encodes them.""",
  ['inputs'], 'every metadata object, every field',
  """Round-trip tests use a few hand-written objects, most fields unset; a field missing from one table silently drops
  data only for objects that set it.""",
  ['meta.py'], [('PathMeta, _PathMetaAsSymlink.versions, _PathMetaAsXattrs.fields, _EncodeByField', 'meta.py')])

P('P14', 'Metadata symlinks written by any earlier version stay readable',
  """The field order of every symlink format version ever published (meta, mdv1 to mdv6) never changes; a new layout
  gets a new version name, and the version being written is the newest. Readers pick the layout by the
  version recorded in the link, never by the current one.""",
  ['histories'], 'every link written by any released version',
  """No test keeps links written by old releases for every version; changing an old table silently shifts every later field.""",
  ['meta.py'], [('_PathMetaAsSymlink.versions/from_parts', 'meta.py')])

P('P15', 'Symlink metadata encoding is unambiguous',
  """A string stored in a metadata symlink never reaches the link with an unescaped path separator or field separator in it, and a string that already
  contains one of the two escape characters is rejected, so decoding cannot yield a different string. Missing values
  and empty file ids are written as the empty marker, and names are never silently rewritten.""",
  ['inputs'], 'every string value of every field', """Tests encode ordinary ids; values mixing separators and escape characters are an unbounded set.""",
  ['meta.py'], [('_PathMetaAsSymlink.encode/decode', 'meta.py')])

P('P16', 'Metadata objects behave as values',
  """Two metadata objects are equal exactly when all their fields are equal, whether or not a date has been parsed yet, and comparing with
  something else is never equal; pickling and copying give back an equal object, and the blob of a metadata store is read with the prefix it was written with. Indexing by field name returns that field's value or raises KeyError, an
  object with no field set is false and any other is true, and ids that are not strings and empty file ids (other than 0) are rejected
  with TypeError; a date given as text is answered as the date it says, any other as it was given.""",
  ['inputs', 'histories'], 'every pair of metadata objects and every order of reading their fields',
  """Tests compare objects with the same fields set right after construction; lazily parsed dates make the outcome depend on history.""",
  ['meta.py'], [('PathMeta.__eq__/__getitem__/__bool__/__init__', 'meta.py')])

P('P17', 'Merging metadata never drops information',
  """Merging old with new metadata starts from every old field, replaces a field only by a new value that is not None
  and not empty, records the old id when the id changes, and reports the file as different exactly when created, updated, size,
  checksum or file id changes from a known value. Only when the file is different are fields missing from the new metadata stripped,
  never the recorded old id; with one side empty the other is returned unchanged.""",
  ['inputs'], 'every pair of metadata objects', """Tests merge two or three pairs; the field by field rule over all subsets of missing fields is unbounded.""",
  ['caches.py'], [('PrimaryCache._update_meta', 'caches.py')])

P('P18', 'Symlink caches never clobber files or newer metadata',
  """Setting metadata on a symlink cache raises PathExistsError when a real file or directory is there and writes nothing.
  When the link already holds metadata it is left alone if the metadata is equal, if it has another id and the new metadata is not strictly
  newer, or if the new metadata would lose the known size; otherwise the old link is moved to the trash before the new one is written,
  which carries the name of its file.
  Reading raises PathExistsError when the link resolves to something and NoCachedMetadataError when there is no link.""",
  ['inputs', 'histories'], 'every pair of stored and new metadata (ids, updated and created times, sizes)',
  """The decision has more than a dozen orderings of timestamps and ids; tests reach two or three.""",
  ['caches.py'], [('SymlinkCache.meta', 'caches.py')], observe=['symlink creation', 'trash moves'])

P('P19', 'Metadata is persisted in one place and never written by accident',
  """Attribute metadata is written only to a path that exists and is not a symlink; setting in-memory metadata needs an explicit memory_only
  request and is refused for nothing but metadata of a different id, and the backup follows. Setting metadata on a primary cache ignores empty metadata, writes attributes when
  something exists there and the symlink otherwise, and afterwards drops its in-memory copies so that later reads come from disk.""",
  ['inputs', 'histories'], 'every state of the path and every metadata value',
  """Tests set metadata on regular files and fresh links only.""",
  ['caches.py'], [('_CachePath/EatCache/PrimaryCache._meta_setter', 'caches.py')])

P('P20', 'Updating metadata of a changed file preserves local work',
  """When a metadata update means an existing local file must be re-fetched, local content that differs from both the cache and the new metadata
  makes it raise LocalChangesError before anything is changed. Otherwise the old file is moved to the trash
  before new metadata or data is written, any failure after that puts it back and is re-raised, and when no re-fetch is needed nothing is trashed. The returned
  flag says whether the file differs.""",
  ['inputs', 'fault_sequences', 'histories'], 'every pair of metadata, local file state, and failing step (metadata write, fetch)',
  """Tests never fail the fetch or the metadata write in the middle of an update, the only moments data can be lost.""",
  ['caches.py'], [('PrimaryCache._meta_updater', 'caches.py')], observe=['trash move', 'rename back', 'exception'])

P('P21', 'Trashing a path moves it inside the trash and says where',
  """Trashing moves the file (never deletes it) to a location inside the cache's trash folder whose
  name is made from the id with every character that is special to file systems replaced, creating missing folders first. A file name that is too
  long falls back to the short location, any other error propagates, and the location returned is always the one the file was
  moved to.""",
  ['inputs', 'fault_sequences'], 'every id string and every rename failure',
  """Tests use well-behaved short ids; path separators in an id and over-long names are not tried.""",
  ['caches.py', 'utils.py'], [('_CachePath.crumple/_trashed_path', 'caches.py'), ('fs_safe_id', 'utils.py')], observe=['rename calls'])

P('P22', 'Moving a cached file never overwrites a different object',
  """Moving a cache onto an existing target that holds a different id raises (PathExistsError, or
  WhyDidntThisGetMovedBeforeError for a metadata link) and changes nothing (when a link is in the way the remote keeps this cache), no other target is refused, and moving onto itself is a no-op. Otherwise the target is returned, as a cache with the metadata given, with the file or link at it, its folder made for the remote when missing. A link in the way of a file
  being moved is set aside first and put back if the rename fails, and is removed once the file is in its place, only after it has been set aside and, for the same id, its metadata is merged;
  without a target and metadata, or a remote, TypeError is raised.""",
  ['inputs', 'fault_sequences'], 'every source and target state (file, directory, metadata link, missing), equal or different ids, every rename failure',
  """Tests cover about a dozen hand-built combinations with renames that always succeed.""",
  ['caches.py'], [('_CachePath.move', 'caches.py')], observe=['rename and unlink calls'])

P('P23', 'Fetched data is verified against metadata',
  """fetch refuses directories and missing metadata, refreshes with data instead when the metadata has no file id, downloads only when no size limit is given or the known size is within
  it (a file over the limit is never downloaded and is logged), replaces a metadata link by a file carrying the same metadata before it writes data, and after the data is written compares the local size with the metadata size, raising ValueError when they differ.
  Unless a mismatch was recorded before, it then compares checksums, when there is one in the metadata, with the cypher named in the metadata and records checksum-mismatch
  in the metadata errors when they differ.""",
  ['inputs', 'fault_sequences'], 'every metadata (size, checksum, errors) and every downloaded content',
  """Tests never download truncated or corrupted data.""",
  ['caches.py'], [('_CachePath.fetch', 'caches.py'), ('_CachePath._instance_cypher', 'caches.py')])

P('P24', 'Validation compares the right digests and reports mismatches',
  """Validating a file compares the etag when the metadata has one, otherwise the checksum computed with the cypher
  the metadata names, otherwise the size. A checksum mismatch is logged and recorded in the metadata errors, a size mismatch raises SizeError, and an unknown
  cypher name raises NotImplementedError instead of being ignored.""",
  ['inputs'], 'every combination of etag, checksum, size and local content', """validate_file has no test at all.""",
  ['caches.py'], [('_CachePath.validate_file/_instance_cypher', 'caches.py')])

P('P25', 'Bootstrapping is guarded and leaves no bootstrap state behind',
  """Bootstrapping from metadata without an id raises BootstrappingError, and bootstrapping something that already has
  metadata raises unless it is recursive, in both cases before anything is created. Ids in skip, or not in a
  non-empty only list, create nothing (except the root). However it ends, the in-bootstrap marker and the in-memory metadata are
  removed from the object and a pending sparse mark is written.""",
  ['inputs', 'fault_sequences'], 'every metadata, only/skip/sparse selection and every failure inside the bootstrap',
  """Tests bootstrap one small tree that never fails.""",
  ['caches.py'], [('_CachePath.bootstrap/_bootstrap', 'caches.py')])

P('P26', 'An anchor is bound once, consistently, and released completely',
  """A remote class can be bound to an api only once and to an anchor only once (ValueError or RemoteAlreadyAnchoredError otherwise), a root id that
  differs from the anchor's id is refused with ValueError unless it is the remote root, and neither the remote class nor the cache class stays anchored when a
  check fails; an initialisation that fails (no session, an api without a root) leaves nothing bound, so that it can be tried again. Weighing anchor removes the class's own anchor only (one inherited from a parent class stays with the parent), and creating a new remote class
  ties local, cache and remote classes to each other and starts without anchors of its own; anchoring where a cache is makes its local folders and ties the remote class to it, with the api only when that is asked for.""",
  ['histories'], 'every order of init, anchor and weigh calls over several classes',
  """Tests follow the one intended order.""",
  ['remotes.py', 'caches.py'], [('RemotePath.init/anchorToCache/anchorTo/dropAnchor/weighAnchor/_new', 'remotes.py'), ('_CachePath.weighAnchor', 'caches.py')])

P('P27', 'Dropping anchor never takes over a folder with content',
  """Dropping an anchor initialises the local root only if it does not exist yet or is empty: with children present DirectoryNotEmptyError is raised
  and nothing is created, a file with the name of the root is refused, and a remote root that is not a directory is refused when the local root would have to be
  created. Anchoring to a path without a cache drops anchor only when creation was asked for and the path has the name of the root; what is no path is refused with TypeError; each way of anchoring gives the anchor it is about: the one that exists, that of the cache of the path, or the new one, and binds the api only when that was asked for. The smart form only falls back to an existing anchor when the folder
  really has cached metadata (or equals the current anchor) and re-raises otherwise.""",
  ['inputs', 'histories'], 'every state of the local folder and of the remote root', """Tests start from missing folders.""",
  ['remotes.py'], [('RemotePath.dropAnchor/smartAnchor/anchorTo', 'remotes.py')])

P('P28', 'Creating a cache never replaces an existing one',
  """Initialising a cache on a local path raises CacheExistsError when the path already has cached metadata and ValueError when nothing exists there, in both cases before
  anything is written; metadata is built from a bare id when one is given. A primary cache constructed without remote, metadata or stored metadata raises
  NoCachedMetadataError, and constructed from a remote it never writes metadata of its own accord without that remote's metadata.""",
  ['inputs'], 'every local path state and every id or metadata argument', """Tests initialise caches on fresh folders.""",
  ['core.py', 'caches.py'], [('LocalPath.cache_init', 'core.py'), ('CachePath.__init__', 'caches.py')])

P('P29', 'Remote shell commands treat paths as data',
  """Every path that becomes part of a command sent to a remote shell is quoted so that no character of it can be interpreted
  by that shell, and a command with control characters, which the line editor of the interactive session would act on before the shell sees any quotes, is
  refused before it is sent.""",
  ['inputs'], 'every remote path string', """The ssh code is skipped by the offline test-suite; hostile names are never tried.""",
  ['remotes.py'], [('SshRemote.data/checksum/_stat_cmd/children', 'remotes.py')], observe=['command strings'])

P('P30', 'Remote commands are sent whole and their failures keep their meaning',
  """A command longer (in bytes, with room for the prompt) than the remote terminal is wide raises CommandTooLongError and is not sent, and the answer is what the
  host sent after the echo of the command. A remote stat answer that cannot be
  parsed becomes PermissionError or FileNotFoundError when the remote said so and ValueError otherwise; exists is false only for the not found case, and
  access is denied for both. A data transfer the remote command reports as failed raises instead of ending early.""",
  ['inputs', 'fault_sequences'], 'every command length and every remote answer', """No ssh session exists in the test environment.""",
  ['remotes.py'], [('SshRemote._ssh/stat/exists/access', 'remotes.py')])

P('P31', 'A remote and its cache are bound to each other or not at all',
  """Only a real cache object can be bound to a remote (NotACacheClassError otherwise); when updating the cache's metadata fails during binding, the
  remote forgets the cache again and the error is re-raised. Otherwise each of the two leads to the other, both before the metadata is updated, which happens only when it is asked for.""",
  ['inputs', 'fault_sequences'], 'every object offered as cache and every failing metadata update',
  """Tests bind valid caches whose update succeeds.""",
  ['remotes.py'], [('RemotePath._cache_setter/_impl__cache_setter', 'remotes.py')])

P('P32', 'Updating a cache from its remote keeps identity and order',
  """update_cache refuses a cache argument when the remote already has one, and for a foreign cache refuses one whose name or parent differs, before touching
  it. Metadata is updated before the file is moved, the move happens exactly when the name or parent changed, and a move
  conflict is handed to the conflict hook, never dropped.""",
  ['inputs', 'histories'], 'every combination of own or foreign cache, name and parent changes, and move outcomes',
  """Tests use matching names and parents.""",
  ['remotes.py'], [('RemotePath.update_cache', 'remotes.py')])

P('P33', 'Temporarily checking out a git ref restores branch and changes',
  """Entering a ref as a context refuses an invalid ref before touching the work tree, stashes everything before switching, and switches only
  when the ref is not already checked out; if switching fails the stash is restored. Leaving it switches back to the original branch and pops exactly the stash made on
  entry, if one was made, never another.""",
  ['histories', 'fault_sequences'], 'every work tree state on entry and exit and every failing checkout',
  """Tests enter and leave with a clean or once-dirty tree and checkouts that succeed.""",
  ['repo_patch.py'], [('_Reference.__enter__/__exit__', 'repo_patch.py')], observe=['git commands'])

P('P34', 'Committing one path never consumes an unrelated stash',
  """Committing a path in a non-empty repository stashes other changes, commits, and pops exactly the stash it made on every
  way out, including a failing commit; when there was nothing to stash no stash entry is read or popped. The content committed is that of the path itself, also when the
path is relative or the working directory is not that of the repository.""",
  ['histories', 'fault_sequences'], 'every index, work tree and pre-existing stash state, and a commit that fails',
  """Tests commit in repositories without older stash entries.""",
  ['repo.py'], [('RepoHelper.commit', 'repo.py')], observe=['git commands'])

P('P35', 'Repositories are never initialised over an existing one',
  """Initialising or cloning at a path inside an existing repository raises RepoExistsError and runs no git command; only when the path itself
  is gone is the stale registration dropped. A repository created or first opened is registered under its working directory, which is the nearest
  enclosing folder that holds a repository, absolute, also for a relative path and for a path with .. in it; a path outside any repository raises
  NotInRepoError, and removing a registered repository drops and closes its registration.""",
  ['histories'], 'every sequence of init, clone, open, remove', """Tests follow one create-remove sequence.""",
  ['repo.py'], [('RepoHelper.init/repo/working_dir', 'repo.py'), ('RepoPath.rmtree', 'repo.py')])

P('P36', 'Running a setup file leaves the process as it was',
  """Reading package information from a setup file restores the working directory and the root logger level on every way out, and, when
  the setuptools entry point is intercepted, restores it too.""",
  ['fault_sequences'], 'every setup file, including ones that raise or exit', """Tests run one well-behaved setup file.""",
  ['package.py'], [('PackagePath.setupfu', 'package.py'), ('load_run_setup', 'package.py')])

P('P37', 'Version phase transitions are total and legal',
  """For every current state and requested phase the transition either raises ValueError or yields steps that the version constructor
  handles; an unknown phase raises ValueError, and so do going back to an earlier pre-release, to dev from a pre-release, and to post from a
  non-release; every other transition is allowed and never goes to an earlier phase of the same release: from a release, post or local version the release component asked for is
  incremented first.""",
  ['inputs'], 'all pairs of current state and requested phase', """Tests try a few of the state/phase pairs.""",
  ['package.py'], [('logic, cons_next, current_state', 'package.py')])

P('P38', 'Zip paths answer and read without touching the real file system wrongly',
  """Asking whether a path exists never raises for a path outside any zip file or for a missing zip file: outside a zip the answer is the file system's, inside it is
  the archive's own listing; a file that merely looks like a zip is not one, and the archive itself exists also when it is empty. Opening inside a zip refuses
  directories with IsADirectoryError and missing members with FileNotFoundError, reading yields everything up to end of file and closes the member on every way out.""",
  ['inputs'], 'every path in, at and outside a zip file', """Tests open one archive and look at paths inside it.""",
  ['zip.py'], [('ZipHelper.exists/zip_path/open', 'zip.py'), ('ZipInternalPath.open/data', 'zip.py')])

P('P39', 'Every name the code uses is defined',
  """On every supported platform and python version, no statement of the package reads a global, imported, module or local name that cannot be
  bound when it runs, raises or catches an exception class that does not exist, assigns to a property that has no setter, or publishes a name in __all__
  that the package does not have.""",
  ['inputs', 'configurations', 'fault_sequences'], 'every statement, in particular the error paths, under every configuration',
  """Such errors sit on rarely taken error and platform branches; a test has to take each branch to see them.""",
  ['__init__.py', 'core.py', 'caches.py', 'remotes.py', 'meta.py', 'repo.py', 'repo_patch.py', 'package.py', 'zip.py', 'utils.py', 'swap.py', 'exceptions.py', 'pyads.py'],
  [('module namespaces', '__init__.py')])

P('P40', 'No library call drops into a debugger',
  """No call of the library, on any path including its error paths, starts an interactive debugger or reads from the terminal.""",
  ['inputs', 'fault_sequences'], 'every call and every error path', """The offending calls sit on error branches tests do not take.""",
  ['core.py', 'caches.py', 'remotes.py', 'meta.py', 'package.py'], [('error branches', 'meta.py')])

P('P41', 'Errors are never swallowed outside the documented places',
  """Outside a fixed list of documented fallbacks, an exception caught by the library is re-raised, converted into another
  exception, or turned into the documented answer for exactly the error classes documented; nothing catches broadly and carries on.""",
  ['fault_sequences'], 'every handler and every exception that can reach it', """A swallowed error leaves no trace a test could see unless it injects that
  very error.""",
  ['core.py', 'caches.py', 'remotes.py', 'meta.py', 'repo.py', 'package.py', 'zip.py', 'utils.py'], [('exception handlers', 'core.py')])

P('P42', 'Opened files and descriptors are closed on every path',
  """Every file or descriptor the library opens for itself is closed on every way out of the function that opened it, normal or by
  exception.""",
  ['fault_sequences'], 'every open and every failure between open and close', """Leaks are invisible to tests unless they count descriptors under injected failures.""",
  ['core.py', 'swap.py', 'utils.py', 'zip.py', 'repo.py'], [('open / os.open sites', 'core.py')])

P('P43', 'The exception classes keep their documented hierarchy',
  """Every exception the library defines derives from AugPathlibError, the specialised target-exists error stays a path-exists error, and no other library exception is
  caught by a handler for an unrelated one.""",
  ['programs'], 'every caller that catches library exceptions', """Tests check the class raised, not which handlers of a caller's program would catch it.""",
  ['exceptions.py'], [('exceptions', 'exceptions.py')])

P('P44', 'Local metadata describes the file as it is now',
  """Metadata of a missing path has only id and name. Otherwise the fields come from one stat of the path and its own data, a checksum is computed exactly when asked for
  (with the name of the cypher that made it), an etag when a chunk size is given, and a stored answer is reused only when the file's change and modification times are both unchanged and it carries the checksum and etag that
  are asked for. Metadata of a local path cannot be set.""",
  ['inputs', 'histories'], 'every file and every sequence of changes and metadata requests',
  """Tests ask once per file.""",
  ['core.py'], [('LocalPath._meta_maker, meta, meta_no_checksum', 'core.py')])

P('P45', 'Content comparison uses checksums when both sides have one',
  """Two metadata objects are content-different by checksum inequality when both have a checksum, and otherwise when sizes differ or the
  other is newer. A local file compares its recomputed checksum with the cached one, and asks the cache for a checksum when none is stored.""",
  ['inputs'], 'every pair of metadata objects', """Tests compare one or two pairs.""",
  ['meta.py', 'core.py'], [('PathMeta.content_different', 'meta.py'), ('LocalPath.content_different', 'core.py')])

P('P46', 'Linking the object store never hides existing objects',
  """Redirecting the local object store to another folder is refused when it is already a link elsewhere or a non-empty folder; nothing is
  recursively removed, and a link that already points to the same place is left alone. Otherwise the data folder, the store in it and the trash are made, or kept when they are there.""",
  ['inputs', 'histories'], 'every state of the object store', """Tests redirect a fresh store.""",
  ['caches.py'], [('_CachePath.local_data_dir_init', 'caches.py')])

P('P47', 'A sysid is bound once per class',
  """Binding the machine id to a class that already has one raises ValueError and leaves it; a stored machine id file is used only if it exists, is readable and is not empty, and a
  usable one is not overwritten unless the caller asks to ignore it.""",
  ['histories'], 'every sequence of bindings and machine id file states', """The binding happens at import in the tests.""",
  ['utils.py'], [('_bind_sysid_, sysidpath', 'utils.py')])

P('P48', 'Deduplication keeps the newer of two copies of one object',
  """dedupe refuses caches with different ids with ValueError and otherwise returns the one whose cached update time is newer, then
  whose local update time is newer, then (when both local times are known and the same) the one whose size is known, never renaming or deleting either.""",
  ['inputs'], 'every pair of update times and sizes', """dedupe is not tested.""",
  ['caches.py'], [('_CachePath.dedupe', 'caches.py')])

# behaviours no sound static argument in reach can bound ------------------------------------------------
P('P49', 'A stat record is read back field for field whatever the file is called',
  """The stat record printed by the external stat program is parsed so that every attribute (name, inode, block size, size, access,
  modification, change and, when known, birth time, group, user, mode) holds the field the format string asked for, as a number of the right kind, for every
  file name, also one that contains the field separator, and times with a fraction are the right ones before 1970 too. A record that cannot be had is an
  OSError, and the size of a local path is that of its record.""",
  ['inputs'], 'every file name and every stat record', """The tests parse the records of a few files with plain names.""",
  ['utils.py'], [('StatResult', 'utils.py')])

P('P50', 'An etag does not depend on how its data arrived',
  """Every byte given to an etag is hashed exactly once, in order, in chunks of the chunk size, however the data is split over updates; asking for a digest changes nothing,
  so it can be taken early and again, and the result counts the chunks including a short last one.""",
  ['inputs', 'histories'], 'every sequence of updates and digests and every chunk size',
  """The number of splits of the data and of interleavings of update and digest is unbounded; tests sample one.""",
  ['utils.py'], [('etag.update, etag.digest', 'utils.py')])

P('P51', 'Loops come to an end',
  """Every pass over the body of a while loop uses up input or changes what its test looks at, also when the item of the pass is skipped or the remote does not know it.
  Loops that read end when a read gives nothing, and walking up to parents stops at the root.""",
  ['inputs', 'histories'], 'every state of the folders, streams and remotes a loop goes through', """Tests go through few items, none of them skipped.""",
  ['caches.py', 'core.py', 'utils.py', 'remotes.py', 'repo.py', 'package.py'], [('_CachePath._bootstrap_recursive', 'caches.py'), ('LocalPath.data', 'core.py')])

P('P52', 'Remote files, folders and access are read from the whole mode',
  """On ssh remotes is_dir and is_file follow the type bits of every mode, also of empty files, and access uses only the permissions
  of the class (owner, group or others) that the remote user is in, for reading, writing and executing.""",
  ['inputs'], 'every mode, owner and group of a remote file', """Tests need an ssh server and look at single files.""",
  ['remotes.py', 'utils.py'], [('SshRemote.is_dir, is_file, access', 'remotes.py'), ('StatResult', 'utils.py')])

P('P53', 'URIs and names of repositories come from the remote url',
  """For every form of remote url (scp-like, ssh, https; with and without .git and a final slash) the human, machine and api uris name the right group,
  repository, ref and path, and a clone goes to the name of the repository.  Names may have dots, only a final .git is not part of them.""",
  ['inputs'], 'every group, repository, ref and path name and form of url', """Tests try one remote.""",
  ['repo.py'], [('RepoHelper.clone_path, remote_uri_human, remote_uri_machine, remote_uri_api', 'repo.py')])

P('P54', 'Showing a file of a commit gives its exact bytes',
  """show gives exactly the bytes of the file at that ref, with all newlines and without decoding or reencoding them, and what is asked
  for is the path of the file itself.""",
  ['inputs'], 'every content and ref', """Tests compare text without trailing newlines.""",
  ['repo.py'], [('RepoHelper.show', 'repo.py')])

P('P55', 'History and changes are those of the path itself',
  """modified, indexed, has_uncommitted_changes, latest_commit and commits look at the entry of the path itself, also when it is a symlink, and compare
  index, HEAD and working tree as their names say; adding to the index and committing use that same entry.  Names that look like patterns or options
  (`*`, `[`, a leading `:` or `-`) mean the file of that name and no other.""",
  ['inputs', 'histories'], 'every path, symlink and state of index and working tree', """Tests have no symlinks in repositories.""",
  ['repo.py'], [('RepoHelper.modified, indexed, has_uncommitted_changes, latest_commit, commits, add_index, commit_from_working_tree', 'repo.py')])

P('P56', 'Releases of a package are its own',
  """Tags and releases taken for those of a package are name-digit tags when it is not at the root of its repository and bare ones when it is, never those of packages
  whose names start or end with its name.  The version is what follows the name, the latest release is the highest version, and commits since the last release are all when there was none.""",
  ['inputs', 'histories'], 'every set of tags and releases', """Tests need the network.""",
  ['package.py'], [('PackagePath.tag, tag_latest_github, version_tag, commits_since_last_release', 'package.py')])

P('P57', 'The current ref name is one of a ref at the current commit',
  """currentRefName gives the name of a branch, tag or remote branch that is at the current commit, the same for annotated tags, or None;
  never a name relative to another commit.""",
  ['inputs', 'histories'], 'every form in which git names a commit', """Tests look at branches.""",
  ['repo_patch.py'], [('_Repo.currentRefName', 'repo_patch.py')])

P('P58', 'Parts of a remote are relative to its anchor whether cached or not',
  """The parts of a remote are the names of its ancestors below the anchor and its own, the same with and without a cache, also when an ancestor is called the same as the anchor.
  Local folders made for remote ones are only made when missing and get the metadata of the remote folder they stand for, and a new remote folder comes before its local one.""",
  ['inputs', 'histories'], 'every hierarchy of remote folders', """Tests override the paths of remotes.""",
  ['remotes.py', 'core.py'], [('RemotePath.parts, _parts_relative_to', 'remotes.py'), ('LocalPath.mkdir_cache, mkdir_remote', 'core.py')])

P('P59', 'Types of paths that are not fetched are read without following them',
  """mimetype and encoding work for relative and absolute paths whether they are fetched or not: a link to something that does not exist is never resolved,
  and only folders are folders.""",
  ['inputs'], 'every kind of path', """Tests look at files that exist.""",
  ['core.py'], [('AugmentedPath.mimetype, encoding', 'core.py')])

P('P61', 'Relative paths lead where they should',
  """The relative path from one path to another, from the folder of a file (as for links) or from a folder that holds the other, leads to exactly the other path, and relative_path_to is its inverse.""",
  ['inputs'], 'every pair of absolute paths', """Tests sample pairs.""", ['core.py'], [('AugmentedPath.relative_path_from, relative_path_to, to_relative', 'core.py')])

P('P66', 'A refresh trashes only what is gone, and metadata has one order of sources',
  """Refreshing a cached path without metadata raises NoCachedMetadataError before the remote is asked; it is trashed if and only if the remote says it is gone, never after an error,
  and otherwise the remote is asked for what the caller wants and its answer is returned.
  Cached metadata is read from the file or else the symlink, every source is asked while there is none, the backup is asked and restored only when they have none, and having none at all is no error.""",
  ['inputs', 'faults'], 'every state of a cached path and outcome of the remote', """Tests have no remotes that lose files and no backups.""",
  ['caches.py'], [('_CachePath.refresh', 'caches.py'), ('PrimaryCache.meta', 'caches.py')])

P('P67', 'Remotes are values of their id',
  """Two remotes are equal if and only if their ids are, never equal to nothing, unequal is the opposite of equal, and every kind of remote can be a member
  of a set or a key, with a hash that depends on nothing but the id. A remote is made from an id, or from metadata or another remote, whose id it has, and from nothing else (TypeError); one made with a cache
  knows it and is known to it.""",
  ['inputs'], 'every pair of remotes of every class', """Tests never put remotes in sets.""",
  ['remotes.py'], [('RemotePath.__init__, id, __eq__, __ne__, __hash__', 'remotes.py')])

P('P68', 'A recursive bootstrap accounts for every remote child once',
  """Every child the remote lists gets exactly one cache (the one it has, a new one, or that of the local file with the same id when nothing but its place changed), and a sparse bootstrap
  leaves out exactly the files that are not sparsely included.  The listing can only be read once and makes nothing itself, and only folders the remote knew and no longer lists are asked for again.""",
  ['inputs', 'histories'], 'every listing, with and without local files and folders', """Test remotes list what is there and are not sparse.""",
  ['caches.py'], [('_CachePath._bootstrap_recursive', 'caches.py')])

P('P69', 'Children are all of the members of a folder, each once',
  """children and rchildren give every member (or descendant) of a folder once and nothing else, for local folders, members of zip files, remotes and caches; what is no folder has none.
  Only members of the anchor of a cache whose whole name is an ignored one are left out, those of any other folder never.""",
  ['inputs'], 'every folder, name and kind of path', """Tests have a few plain names and no anchors with ignored members.""",
  ['core.py', 'zip.py', 'remotes.py', 'caches.py'], [('LocalPath.children, rchildren', 'core.py'), ('ZipInternalPath.children, rchildren', 'zip.py'), ('RemotePath.children, rchildren', 'remotes.py'), ('PrimaryCache.children, rchildren', 'caches.py')])

P('P70', 'access asks for exactly the access named',
  """access asks the system about the path itself for exactly the access named (by name or number), following links only when asked to, with the ids of the user itself,
  and anything that is not one of the modes is an error instead of an answer.""",
  ['inputs'], 'every mode and path', """Tests never ask for access.""", ['core.py'], [('LocalPath.access', 'core.py')])

P('P71', 'Metadata in a link made for another name is refused',
  """Metadata is read from the link itself, without the name that is recorded in front of it, and is only taken when that name is the name of the link, unless the caller says it does not have to be.
  Another name is an error: a missing file only where the names differ in nothing but case on a file system that does not tell them apart, a circular link otherwise.""",
  ['inputs', 'environments'], 'every recorded name and name of a link', """Tests make links with their own names.""",
  ['meta.py'], [('_PathMetaAsSymlink.from_symlink', 'meta.py')])

P('P72', 'The root of a cache is the highest folder that has one',
  """find_cache_root gives the highest folder above a path that has a cache, the same for relative and absolute paths, never the root of the file system and never a folder without a cache.
  A link that is not fetched has the root of its folder, and not finding one is an error only when asked for.""",
  ['inputs'], 'every path and working directory', """Tests ask from absolute paths.""", ['core.py'], [('LocalPath.find_cache_root', 'core.py')])

P('P73', 'Names are never options or code of other programs',
  """Whatever a file, folder, branch or remote is called, other programs that are started (git, stat, xdg-open, ssh and what is run on the other side) take it as a name and not as one of their options,
  and no local shell interprets it.""",
  ['inputs'], 'every name', """Tests use plain names.""",
  ['core.py', 'remotes.py', 'repo.py', 'utils.py', 'package.py'], [('LocalPath._stat, xopen', 'core.py'), ('SshRemote._stat_cmd, cypher_command', 'remotes.py')])

P('P74', 'A bump never reuses a version, and a package is that of its repository',
  """A bump to a version that is the released one or the one in the repository is refused before anything is done, is the version that was asked for, and changes nothing when only pretending.
  The organisation and repository a package looks for its releases under are those in the uri of its remote.""",
  ['inputs', 'histories'], 'every version, release and uri', """Tests need the network.""", ['package.py'], [('PackagePath.bump, arg_org, arg_repo', 'package.py')])

P('P75', 'A checksum is made with the cypher that was asked for',
  """A checksum is made with exactly the cypher the caller names, also when that is the default one; without one with that of the class of the cache, else that of the path, else the default,
  and the checksum in local metadata with that of the class of the cache; the checksum of a remote file is made by the program of the cypher that was asked for (else that of the class of its
  cache) on the host, from the content of the file, whatever it is called.
  The result is a single digest without extra cyphers and one per cypher with them, and what is not a file has none.""",
  ['inputs', 'configurations'], 'every file, cache class and cypher', """Tests use one cypher.""",
  ['core.py', 'remotes.py', 'utils.py'], [('LocalPath.checksum, _meta_maker', 'core.py'), ('SshRemote.checksum, cypher_command', 'remotes.py')])

P('P76', 'A bootstrap makes what the remote has and nothing more',
  """Bootstrapping a cache makes a folder exactly when the remote is a folder, none exists and the bootstrap is not sparse, the missing folder of a file, and the file itself only when
  its data is wanted and its known size is under the limit; a file that is not sparsely included makes nothing, and what is neither file nor folder is an error.
  Options are handed to each step unchanged, an id that is not listed as sparse is not bootstrapped sparsely, what has the same id is updated instead of made again,
  and the caches of all children are given and then its own.""",
  ['inputs', 'histories'], 'every remote, place and set of options', """Tests bootstrap one folder with the default options.""",
  ['caches.py'], [('_CachePath.bootstrap, _bootstrap, _bootstrap_prepare_filesystem', 'caches.py')])

P('P77', 'An ssh remote asks its own host about its own file',
  """Every command that describes or reads an ssh remote names the remote's own path on its own host, and what it answers is the value. The id of a remote is its host and path, and a remote made
  from an id that begins with its host is that of the path in it. A session is a login to the host in the given id with the configuration of the user, is kept by the class that was
  initialised and by no other, and user and groups are those the host gives; GNU stat is gstat on darwin and stat elsewhere.""",
  ['inputs', 'configurations'], 'every id, path and kind of host', """No ssh session exists in the test environment.""",
  ['remotes.py'], [('SshRemote.init, __new__, id, data, _stat_cmd, stat, is_dir, is_file, _ssh', 'remotes.py')])

P('P78', 'Folders made for remotes carry the metadata of their remotes',
  """Making the folders above a remote goes from the outermost in, makes a folder below the anchor where the remote is exactly when nothing exists there, and gives it a cache of that remote with
  that remote's metadata. A remote folder is made once, under its own name and under the remote of its parent (of the nearest parent with a cache, and every missing one below it, when parents are asked for); its local
  folder is made, has the new remote's metadata, and is known to the remote that is returned. A remote that exists is refused with RemotePathExistsError and a path without a parent to
  make it under with FileNotFoundError, before anything is made.""",
  ['inputs', 'histories'], 'every depth of missing folders, every state of cache, remote and parent', """Tests never make remote folders.""",
  ['core.py'], [('LocalPath.mkdir_cache, mkdir_remote', 'core.py')])

P('P79', 'Local path, cache and remote of one thing lead to each other',
  """The local path of a cache is the same path and knows that cache (the one it helps, when asked of a helper), the cache of a local path is made of it and kept, and is None exactly when
  there is no cached metadata or no class of caches; any other failure is raised. A cache with an id (its own kept one, that of its metadata, or, once, that of a bootstrap) has one remote, made with that id
  and that cache and kept, of the class made for the anchor and tied to it first; a helper has the remote of its cache, a relative path that of the same absolute path, and without an id there is none. A cache divided by a
  remote is the child at the path of the remote below it, with the metadata of that remote; divided by a name it is the cache of the file or dangling link of that name, and nothing else can divide it.""",
  ['inputs', 'histories'], 'every state of the attributes kept, every operand', """Tests only use caches with one anchor and one kind of remote, one after another.""",
  ['caches.py', 'core.py'], [('CachePath.local, remote, id, __truediv__, _make_child, __new__', 'caches.py'), ('LocalPath.cache, remote', 'core.py')])

P('P60', 'etag equals the digest S3 computes for a multipart upload',
  """For every split of the same bytes into updates, the etag equals md5 of the concatenated md5 digests of fixed-size
  parts, with the number of parts.""",
  ['inputs'], 'every byte string, part size and split into updates', """Tests sample a few lengths and splits.""",
  ['utils.py'], [('etag.update/digest', 'utils.py')])
P('P62', 'The next version sorts after the current one',
  """A computed next version compares greater than the version it was computed from.""",
  ['inputs'], 'every version and phase', """Tests sample versions.""", ['package.py'], [('next_version', 'package.py')])
P('P63', 'Timestamps round-trip through every format to the same instant',
  """A timestamp written to a symlink or attribute parses back to the same instant.""",
  ['inputs'], 'every timestamp and timezone', """Tests sample timestamps.""", ['meta.py'], [('isoformat, PathMeta.created', 'meta.py')])
P('P64', 'Remote stat output parses for every file name',
  """The remote stat parser recovers name, sizes and times for every file the remote can hold.""",
  ['inputs'], 'every file name and stat build', """One captured line is parsed.""", ['utils.py'], [('StatResult', 'utils.py')])
P('P65', 'Concurrent updates of one cached file do not lose metadata',
  """Two processes updating the same cached file leave metadata of one of them, never a mix or nothing.""",
  ['schedules'], 'every interleaving of two updaters', """Tests are sequential.""", ['caches.py'], [('PrimaryCache._meta_setter', 'caches.py')])

for r in R:
    assert len(r['title']) <= 80, (r['id'], len(r['title']))
    n = r['statement'].replace('...', '').count('. ') + 1
    assert n <= 3, (r['id'], n)
OUT.write_text(''.join(json.dumps(r) + '\n' for r in R))
print(len(R))
