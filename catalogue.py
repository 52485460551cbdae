"""The properties: statement, quantifier, anchors, deciding technique."""


def P(id, title, statement, over, qtext, why, files, mechanism, technique=None, note=None, na=None, **anch):
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
             anchors=dict(files=files, mechanism=[{'name': mechanism, 'where': ', '.join(files)}], **anch))
    if na:
        d['na'] = na
    else:
        d['technique'] = technique
        d['note'] = note
    return d


ENG = ('path-sensitive abstract interpretation (property simulation) of the LLVM IR of /repo, interprocedural with '
       'memoised summaries; ')
OTHER = ('Holds for every path of the analysed functions under the stated models; trusts clang\'s lowering, the libc models and '
         'the abstract domain (intervals, symbolic values, field-sensitive memory). ')

CXX = OTHER + 'The standard library and the user\'s key and data types are modelled by contract; exceptions they throw are followed. '

PROPS = [
    P('P01', 'Every call releases the pages it pins, exactly once, on every path',
      'Whatever a database call or cursor operation does and however it ends (success, key absent, refusal, or any failure part way), every page it pinned in the page cache has been released exactly once when it returns; the only page that may stay pinned is the one a positioned cursor stands on, until the cursor is moved or closed. A released page is neither read nor written again by that call, and a cursor never keeps referring to a page it has released.',
      ['inputs', 'fault_sequences', 'histories'],
      'every entry point of the C database layer (open, get, put, sync, close, cursor, configuration and user information calls), every path through it including each failing page access',
      'The tests only take successful paths through each call; a page left pinned shows later, as a cache that cannot evict or a second thread that waits for ever, and never in a single-threaded test that ends soon after.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c', 'filehash/ffdb_hash_func.c'],
      'ffdb_get_page/ffdb_new_page pin, ffdb_put_page releases; every function between them and the API',
      ENG + 'typestate of page pins', OTHER + 'The pool\'s own functions are modelled by their contract here; P05 checks them.'),
    P('P02', 'A successful call never discards a change it made to a page',
      'When a call that changes the database reports success, every page it changed has been handed back to the cache marked as changed, so that the change reaches the file at the next flush or eviction. No change to a page (pair, link to a next page, free-page map, user or configuration record) is released as if the page were clean.',
      ['inputs', 'histories', 'configurations'],
      'every entry point of the C database layer and every path that can end in success',
      'A change on a page released clean stays visible while the page stays cached, which is the case in every small test; it is lost only after eviction in databases larger than the cache.',
      ['filehash/ffdb_page.c', 'filehash/ffdb_hash.c'],
      'the dirty flag passed to ffdb_put_page / ffdb_pagepool_put_page after stores into the page',
      ENG + 'typestate of page modification', OTHER),
    P('P03', 'A storage failure is never reported as success or as an absent key',
      'If a page cannot be obtained, memory cannot be allocated, or a file operation fails or transfers too little while a database call runs, the call does not report success, and a lookup, insertion or cursor step does not answer that the key is absent or the table is at its end. (A page whose deletion fails is only wasted space and is exempt.)',
      ['fault_sequences', 'inputs'],
      'every entry point of the C database layer, every fallible operation reachable from it failing at any point',
      'The tests run on a healthy disk with ample memory: no failing branch is ever taken.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c', 'filehash/ffdb_db.c'],
      'return codes from the page pool, malloc, open, read, write, lseek up to the API result',
      ENG + 'failure taint with "is the failure remembered" as property state', OTHER),
    P('P04', 'The cache lock is used correctly by every thread and every wake-up arrives',
      'Every function of the page cache takes the lock of the cache before it touches shared cache data, never takes it twice, and has given it up on every path by which it returns. A thread that waits for a page waits in a loop on a condition that is set, under the lock, before it is signalled; a page that is released while threads wait for it always wakes one of them, and no waiter is freed or signalled outside the lock. So no interleaving of threads sharing one database can corrupt the cache, dead-lock on its lock or sleep for ever because a wake-up was lost.',
      ['schedules', 'fault_sequences'],
      'every entry point of the page cache, every path through it including failed reads, writes and allocations, any interleaving with other threads at lock and wait points',
      'The thread test samples a few schedules with few pages; a missed unlock on an error path, or a lost wake-up, needs a particular interleaving or a failing disk.',
      ['filehash/ffdb_pagepool.c'],
      'pgp->lock (FFDB_LOCK/FFDB_UNLOCK), bucket waiter queues, FFDB_COND_WAIT/FFDB_COND_SIGNAL',
      ENG + 'lock-set and wait/notify typestate', OTHER + 'Threads are covered by the lock discipline (everything shared is forgotten at a wait), not by enumerating schedules.'),
    P('P05', 'A cached page is the page asked for, never shared or evicted while in use',
      'When the cache hands out a page, it is the page whose number was asked for, it is pinned and carries one more reference, and it stands in exactly one chain of the hash table (the one of its number) and once in the LRU queue. A page that is pinned, locked or waited for is never evicted, reused for another page or freed, and a pinned page is handed to another thread only after its holder released it.',
      ['histories', 'schedules', 'inputs'],
      'every call to the page cache in any reachable cache state, any page number, any sequence of pins, releases and evictions by any threads',
      'The tests use caches large enough that eviction is rare, and mostly one thread; handing out the wrong or a busy buffer needs eviction pressure at the right moment.',
      ['filehash/ffdb_pagepool.c'],
      'ffdb_pagepool_get_page / new_page / put_page / delete / change_page, bucket flags PINNED and LOCKED, ref, waiters, hash and LRU queues',
      ENG + 'symbolic-heap typestate of cache buckets', OTHER + 'The state of the queues at entry is assumed well formed (every bucket in one chain); each function is shown to keep that.'),
    P('P06', 'A changed page leaves the cache only after it was written to the file',
      'Once a page has been released as changed, its content stays in the cache, marked as changed, until it has been written completely to the file: it is not evicted, dropped or freed before, the mark is cleared only after a complete successful write, a flush visits every cached page and writes every changed one that nobody holds, and the copy in the cache is not itself altered by the conversion for the disk. If the write fails the call says so and the page stays marked.',
      ['histories', 'fault_sequences'],
      'every entry point of the page cache, every path including failed and short writes, any cache content',
      'Needs a cache that overflows or a failing or short write; the tests have neither.',
      ['filehash/ffdb_pagepool.c'],
      'FFDB_PAGE_DIRTY, _ffdb_pagepool_reuse_bkt, ffdb_pagepool_write, _ffdb_pagepool_sync_i, ffdb_pagepool_close',
      ENG + 'typestate of changed pages', OTHER),
    P('P07', 'Every page is read from and written to its own place, through the filters',
      'A page is read from, and written to, the file position page number times page size, computed without overflow in the file offset type, from or into exactly the memory of its own buffer; every page read passes the input filter (byte order, checksum verification) before anybody sees it, and every page written passes the output filter.',
      ['inputs', 'histories', 'configurations'],
      'every page number up to the limits of the type, every page size, every read and write the cache performs',
      'Test files are small: positions beyond 2 or 4 GB, where an offset computed in 32 bits wraps, never occur.',
      ['filehash/ffdb_pagepool.c'],
      'ffdb_pagepool_write, _ffdb_pagepool_load_new_page and the read path of ffdb_pagepool_get_page; lseek/read/write arguments; pgin/pgout filters',
      ENG + 'symbolic position tracking', OTHER),
    P('P08', 'The lock of a handle is balanced and guards every change of the handle',
      'Every database call and cursor operation takes the lock of the handle (or cursor) at most once at a time, never gives up a lock it does not hold, and holds none when it returns, however it ends. Whatever it writes in the handle that all threads share (key count, bucket and page bookkeeping in the header, the list of cursors, the error code) it writes under the lock of the handle, and a lock is destroyed only when nobody holds it.',
      ['schedules', 'fault_sequences', 'inputs'],
      'every entry point of the C database layer on read-write and read-only handles, every path including every failure, concurrently with any other thread using the handle',
      'A lock kept after a failed insertion, or a counter changed outside the lock, shows only with another thread at the right moment or after an I/O failure; the tests have neither.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c'],
      'hashp->lock and the cursor lock (FFDB_LOCK/FFDB_UNLOCK), stores to ffdb_htab_t',
      ENG + 'lock-set typestate', OTHER + 'Reads of the handle outside the lock are not judged.'),
    P('P09', 'A flush or close that reports success has written header and all pages',
      'When sync or close on a writable database reports success, the header as it stands at that moment has been written completely at the start of the file and every changed page has been handed to the file, with no page or header field changed afterwards; close has moreover closed the page cache.',
      ['fault_sequences', 'histories', 'inputs'],
      'every path through sync and close that can report success, including databases whose pages are rearranged on close',
      'Tests reopen healthy files; a header written before the last bookkeeping change, or a failed flush reported as success, needs a particular history or a failing disk to show.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c'],
      '_ffdb_hash_sync, _ffdb_hash_close, _ffdb_hdestroy, _ffdb_flush_meta, _ffdb_hput_header, ffdb_pagepool_sync/close',
      ENG + 'typestate of header and pages (changed, written)', OTHER + 'That ffdb_pagepool_sync writes what it should is P06.'),
    P('P10', 'A handle opened for reading never changes the database or pretends to',
      'On a database opened for reading only, no call modifies a page, marks one as changed, alters the header, writes or truncates the file; every call that would store something (pair, configuration, user information) fails. The handle remembers exactly the access mode it was opened with.',
      ['inputs', 'histories', 'configurations'],
      'every entry point on a handle opened O_RDONLY, any arguments and flags, any path; and every way of opening',
      'The tests hardly use read-only handles, and never with the modifying calls.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c', 'filehash/ffdb_db.c'],
      'hashp->flags and save_file, the O_ACCMODE tests in put and the set_* calls, _ffdb_flush_meta, rearrangement on open and close',
      ENG + 'effect analysis in the read-only mode', OTHER),
    P('P11', 'Opening accepts only an intact file of a supported format',
      'Opening an existing file succeeds only if a complete header was read, its checksum was compared and agrees, it carries the magic number and a supported version, and the hash function in use is the one the file was made with (its value for the test string agrees). On anything else no handle is returned.',
      ['inputs', 'configurations'],
      'every file content and every combination of open arguments; every path of ffdb_dbopen that returns a handle',
      'The tests open only files this library just wrote.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_db.c'],
      '__ffdb_hash_open, _ffdb_hget_header, FFDB_HASHMAGIC, FFDB_VERSION, h_charkey',
      ENG + 'must-check (gate) analysis over every successful exit', OTHER),
    P('P12', 'Stored bytes reach the user only after their checksum was verified',
      'A page that carries the page signature is handed out by the cache only if the checksum stored in it equals the one computed over all the rest of the page as it lies in the file; every page written carries such a checksum, computed after all conversions. A lookup or cursor read returns data only after the checksum of that data was compared with the one stored for it and agreed.',
      ['inputs', 'fault_sequences'],
      'every content of a page or value read back, every path through the page filters, lookup and cursor read that ends in success',
      'The tests never read damaged files.',
      ['filehash/ffdb_page.c', 'filehash/ffdb_hash_func.c'],
      'ffdb_pgin_routine, ffdb_pgout_routine, _ffdb_page_checksum, _ffdb_get_data',
      ENG + 'must-check (gate) analysis; symbolic ranges of the checksummed bytes', OTHER + 'The arithmetic of the CRC itself is not judged.'),
    P('P13', 'Files of either byte order are read and written correctly',
      'A database file written on a machine of the other byte order gives the same contents here, and what is written to it here is in its own order: each number of more than one byte in the file header, in the header of every page, and in the entries of bucket, data, free, user information and configuration pages is converted exactly once when the page comes from the file and exactly once, under the same conditions, when it goes back, with its own width and in its own place; a converted page is interpreted only through numbers that are already in the order of the machine; the checksum of a page is stored in the order of the file; pages of a file in the order of the machine are left alone.',
      ['inputs', 'configurations'],
      'every page of every type with any number of entries, every file header, file order equal to or different from that of the machine',
      'Every test runs on one machine and reads only files it wrote itself, so no page is ever converted.',
      ['filehash/ffdb_page.c', 'filehash/ffdb_hash.c', 'filehash/ffdb_db.h'],
      'ffdb_pgin_routine/_ffdb_swap_page_metainfo_in, ffdb_pgout_routine/_ffdb_swap_page_metainfo_out, _ffdb_swap_header, _ffdb_swap_header_copy',
      'byte-provenance dataflow over the inlined LLVM IR of the page filters and header routines: every stored byte is traced to the byte it came from, loops summarised by induction variables, conversions compared with the declared structures and with each other',
      OTHER + 'Assumes that stores at different places of a page do not overlap. Which words of a page hold numbers is taken from the declared structures and the list of page header words.'),
    P('P14', 'Insertion changes exactly one pair or refuses; lookup answers by key equality',
      'An insertion that reports success has added its key exactly once and counted it once if no stored key compared equal, and has added no second entry and left the count alone if one did. With the no-overwrite flag an existing pair is not modified and the call fails; unknown flags are refused without any change. A lookup reports success only after a stored key compared equal to the key asked for, and never answers "not found" after one did.',
      ['inputs', 'histories', 'fault_sequences'],
      'every path through put and get: any key and data, flags, table state, and failure part way',
      'Tests insert and read back a few thousand pairs on successful paths; the overflow, replace and refusal branches are sampled with few sizes and never fail.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c'],
      '_ffdb_hash_put, _ffdb_hash_get, ffdb_find_item, ffdb_add_pair, ffdb_add_ovflpage, hdr.nkeys',
      ENG + 'event counting on paths (comparison, key copied to a page, key count)', OTHER + 'Where on the pages the pair lies is not judged here.'),
    P('P15', 'Memory and descriptors of the C layer have one owner and are freed once',
      'Memory a database call allocates is handed to the caller, kept in the handle, or freed before the call returns, also when it fails; nothing is freed twice or used after it was freed, and no pointer to freed memory is left where the caller or the handle can reach it. Closing a database or cursor frees everything it owns, and the file descriptor is closed exactly once, also when opening fails half way.',
      ['fault_sequences', 'inputs', 'histories'],
      'every entry point of the C database layer, every path including every failing allocation and page access',
      'Leaks and double frees on failure paths never execute in the tests, and a leak does not fail a test.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c', 'filehash/ffdb_db.c'],
      'malloc/free/open/close in the hash layer; ffdb_htab_t, FFDB_DB, cursors, FFDB_DBT results',
      ENG + 'ownership typestate of heap blocks and descriptors', OTHER + 'Memory inside the page pool is judged by P05.'),
    P('P16', 'The C++ stores never answer success or absent after the database failed',
      'Every operation of the C++ stores (ConfDataStoreDB, ConfDataStoreDBSimple, AllConfStoreDB, the two multiple stores, the merger) that reports by its result reports success only if every operation of the database it relied on succeeded and the work it stands for was handed to the database; it reports an absent key only if the database answered so, and then in every store it has to consult; exist() answers true exactly when the key was found. Operations that have no failing result (keys, keysAndData, binaryKeysAndData, merge) end with an exception, never with a partial list or a partial copy that looks complete. On a store that is not open, an operation that reports by its result does not report success.',
      ['fault_sequences', 'inputs', 'histories'],
      'every public operation of every C++ store class, every combination of success, absent key and failure of the database calls beneath, and every exception of the key and data types',
      'The tests only see calls that succeed on keys that exist; which answer a failed lookup, cursor step or insertion turns into is never observed.',
      ['src/ConfDataStoreDB.h', 'src/ConfDataStoreDBSimple.h', 'src/AllConfStoreDB.h', 'src/ConfDataStoreMultipleDB.h', 'src/AllConfStoreMultipleDB.h', 'src/DBFunc.h', 'src/DBFunc.cpp', 'src/ConfDataDBMerger.h'],
      'getData, insertData, getBinaryData, insertBinaryData, keyExist, allKeys, allPairs, binaryAllPairs, flushDatabase and the members that call them',
      ENG + 'status tracking from each database call to the result or exception', CXX),
    P('P17', 'The C++ stores release cursors, buffers and handles once, also on exceptions',
      'Every cursor an operation of the C++ stores opens is closed, every buffer the database allocated for it is freed and every handle it opened is closed or kept by the store, exactly once, on every way out of the operation including an exception thrown by a key or data type in the middle; nothing is used after it was released, no memory the caller keeps is freed, and no destructor, close or cleanup lets an exception terminate the program.',
      ['fault_sequences', 'inputs', 'histories'],
      'every public operation, constructor, copy, assignment and destructor of the C++ store classes, every path including every exception that SerializeException or a failed database call raises',
      'Leaks and double releases on failing and throwing paths never execute in the tests, and a leak does not fail a test.',
      ['src/ConfDataStoreDB.h', 'src/ConfDataStoreDBSimple.h', 'src/AllConfStoreDB.h', 'src/ConfDataStoreMultipleDB.h', 'src/AllConfStoreMultipleDB.h', 'src/DBFunc.h', 'src/DBFunc.cpp', 'src/DBCursor.cpp', 'src/ConfDataDBMerger.h'],
      'FFDB_DBT results, ffdb_cursor_t, FFDB_DB handles in ConfDataStoreDB::DB and DBCursor, shared ownership of the handle between copies',
      ENG + 'ownership typestate with exceptional control flow', CXX),
    P('P18', 'A C++ store that is not open never reaches through a null or closed handle',
      'Every operation of the C++ stores may be called in any order: before open, after a failed open, after close, on a copy of a store that was closed. None of them hands a null handle or a handle that was already closed to the database or follows it; a close forgets the handle it closed, and opening an open store does not lose the handle it had.',
      ['histories', 'inputs'],
      'every public operation of the C++ stores on a store in any state (never opened, open, closed, open failed, copied), every path',
      'The tests open, use and close in the one proper order.',
      ['src/ConfDataStoreDB.h', 'src/ConfDataStoreDBSimple.h', 'src/AllConfStoreDB.h', 'src/ConfDataStoreMultipleDB.h', 'src/AllConfStoreMultipleDB.h', 'src/DBFunc.h', 'src/DBFunc.cpp', 'src/DBCursor.cpp'],
      'the shared DB object and its dbh_, isDatabaseOpened, close(), the destructors',
      ENG + 'null and typestate analysis of the handle member', CXX),
    P('P19', 'What the C++ stores hand to and from the database is the operation\'s own data',
      'The key and the data an operation of the C++ stores passes to the database are the ones its caller gave, serialised, with their own lengths, and what it returns to the caller is rebuilt from what the database returned for that operation with its own length. A listing contains each pair the cursor delivers exactly once, the key and the data of one pair at the same place of both lists; a failing listing leaves nothing behind. The vector of configurations is split at its element size and an element lands at its own index. A configuration description is stored and read back field for field.',
      ['inputs', 'histories'],
      'every public reading and writing operation of every C++ store class, every key, data, length and index, every path that ends in success',
      'Tests use a few keys of equal length and values that differ little; a length of another buffer or a pair listed one off goes unnoticed.',
      ['src/ConfDataStoreDB.h', 'src/ConfDataStoreDBSimple.h', 'src/AllConfStoreDB.h', 'src/ConfDataStoreMultipleDB.h', 'src/AllConfStoreMultipleDB.h', 'src/DBFunc.h', 'src/DBFunc.cpp', 'src/ConfigInfo.cpp'],
      'FFDB_DBT key and data built from std::string, assign() from the returned buffer, push_back in the listing loops, ffdb_config_info_t copies',
      ENG + 'symbolic provenance of buffers and lengths', CXX + 'Equality of values after a round trip through pages is not judged.'),
    P('P20', 'The C++ stores never divide by zero, overrun a buffer or leave text unterminated',
      'For every count of configurations, every index, every name and every length a file or caller supplies, the C++ stores compute element sizes without dividing by zero, read and copy only within the buffers they have, refuse an index outside the stored vector, and keep every copied name within its field and terminated.',
      ['inputs', 'configurations'],
      'every public operation of the C++ stores; every number of configurations including none, any index, names of any length, stored data of any length',
      'The tests use configuration counts that divide evenly, short names and valid indices.',
      ['src/AllConfStoreDB.h', 'src/AllConfStoreMultipleDB.h', 'src/ConfDataStoreDB.h', 'src/ConfigInfo.cpp', 'src/DBFunc.h', 'src/VFloatData.cpp'],
      'the bytes-per-configuration division, memcpy into and out of the concatenated vector, strncpy into ffdb_config_info_t',
      ENG + 'interval and symbolic-relation analysis of divisors, copy lengths and indices', CXX),
    P('P21', 'No call of the C store reads or writes outside a page or buffer',
      'For every key, value, page size and buffer a caller passes, every copy and every write at a computed place stays inside the page it is on, inside the memory allocated for it, or inside the buffer and length the caller named: storing and reading a value on one page or over many, replacing it, splitting a bucket, the map of free pages, user information and configurations, and reading through a cursor. Entries on a page never reach into the table of entries at its start, and the free position a page keeps stays on the page. A buffer that is too short is refused, not filled past its end.',
      ['inputs', 'histories', 'configurations'],
      'every key and value length, page size, fill of a page, length of a buffer, and every path through put, get, cursor, user information and configuration calls',
      'Overrunning a page by a few bytes needs a value, key or fill within a few bytes of a limit and mostly lands in the neighbouring page of the cache, which no test looks at.',
      ['filehash/ffdb_page.c', 'filehash/ffdb_hash.c', 'filehash/ffdb_page.h'],
      '_ffdb_add_data, _ffdb_replace_data, _ffdb_get_data, _ffdb_add_item_on_page, _ffdb_write_key_datap_to_page, _ffdb_update_free_page, ffdb_set_uinfo, ffdb_get_uinfo, ffdb_set_configs, ffdb_cursor_find_by_key, PAIRSIZE, FREESPACE, FFDB_MAX_KEYSIZE',
      'interval-style dataflow with linear relations between values over the inlined LLVM IR of the table and page layers: every access at a computed place is an obligation (offset + length <= size) that has to follow, by linear arithmetic, from the comparisons that dominate it, the merges before it and loop invariants found by iteration',
      OTHER + 'Assumes that pages in the file are well formed, page sizes of at least 512 and sizes that are not negative. Reported is an access whose bound depends only on numbers this analysis follows and does not follow from the comparisons before it; what it cannot follow is listed in the evidence as undecided (on this tree: one copy of ffdb_get_configs, which depends on the counts pages of the file state).'),
    P('P22', 'Checksum, hash and comparison cover every byte, the same in every build',
      'The checksum of any sequence of bytes is its CRC-32, continued from the value given, so every change of up to 32 consecutive bits is detected; the table it needs is complete before the first checksum is computed, in every thread. The built-in hash of a key depends on every byte of it, zero bytes and bytes above 127 included, and is the one existing files were made with; storing and looking up hash the same bytes. The built-in comparison answers "equal" exactly for keys of the same length and the same bytes.',
      ['inputs', 'configurations', 'schedules'],
      'every key and buffer of every length and content, every number of threads that open databases at once',
      'Tests use short keys of ASCII digits and small buffers, and write and read with the same build, so a function that ignores, repeats or misreads some bytes agrees with itself.',
      ['filehash/ffdb_hash_func.c', 'filehash/ffdb_hash.c'],
      '__ffdb_crc32_checksum, __ffdb_crc32_init, __ffdb_default_hash (__ham_func5), __ffdb_default_cmp (__ham_defcmp), _ffdb_call_hash and its callers, __ffdb_hash_open',
      'recurrence analysis of the loops in LLVM IR: each counter and pointer as a linear function of the number of turns, the test of the loop as the number of turns, addresses of the bytes read as base + N; the step of the checksum is computed bit by bit as a linear map over GF(2) (its table by constant propagation) and compared with the one of CRC-32, the step of the hash as a polynomial modulo 2^32; return paths of the comparison are classified by what is known on them; a must-happen-before dataflow shows that the table is built before it is used',
      OTHER + 'Loops of another shape (several loops, several bytes per turn) are listed as undecided in the evidence. Hash and comparison functions supplied by the caller are not looked at; which bytes are checksummed where is P12.'),
    P('N01', 'Every pair stored is read back equal after any history, also after reopening',
      'After any sequence of insertions, replacements, table doublings, cache evictions, closes and reopens, a lookup of a key returns exactly the bytes last stored for it, and a key never stored is reported absent.',
      ['histories', 'inputs', 'configurations'], 'every history of operations with any keys and values, any page size, cache size and number of buckets',
      'The tests sample a few histories; the state of chains, splits and free pages after an arbitrary history is unbounded.',
      ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c'], 'bucket chains, big data chains, split and free page maps',
      na='equality of values over unbounded histories depends on the contents of pages (entry offsets, chain links, bucket masks), which no static argument in reach bounds; the parts of it that are properties of the code alone are P02, P05, P09, P13 and P14'),
    P('N02', 'The address of a bucket is unique and stays the same while the table grows',
      'For every table size, different buckets live on different pages, no bucket page is also an overflow, data, user or configuration page, and after a doubling each key is found in the bucket its hash selects.',
      ['inputs', 'histories'], 'every number of buckets, every sequence of doublings and page moves',
      'Tests grow tables to a few sizes.', ['filehash/ffdb_hash.c', 'filehash/ffdb_page.c', 'filehash/ffdb_hash.h'], 'BUCKET_TO_PAGE, spares[], ovfl_point, high_mask, low_mask',
      na='an arithmetic invariant over the run-time contents of spares[] and the masks across all doublings; it needs induction over numeric state, which interval and symbolic dataflow do not carry'),
    P('N03', 'A crash leaves a file that opens with all data of the last sync, or is refused',
      'If the process or machine stops at any point, the file afterwards either holds everything up to the last completed sync or is refused when it is opened.',
      ['crash_points'], 'every crash point, every order in which pages reach the disk',
      'No test stops in the middle.', ['filehash/ffdb_pagepool.c', 'filehash/ffdb_hash.c'], 'order of page and header writes, checksums',
      na='the code has no ordering or journal that could provide it (pages are overwritten in place, without fsync between pages and header), and which pages were written is a run-time quantity; detection of torn pages is covered by P12'),
    P('N04', 'A cursor visits every pair exactly once',
      'A cursor moved from first to next until it reports the end returns every pair of the database exactly once.',
      ['histories', 'inputs'], 'every database content and shape of chains',
      'Tests iterate over a few databases.', ['filehash/ffdb_page.c', 'filehash/ffdb_hash.c'], 'ffdb_cursor_find_by_num and bucket iteration',
      na='which entries a walk meets depends on the chain links and entry counts stored in pages; the listing code above the cursor is judged by P19, errors that end a walk early by P03 and P16'),
    P('N05', 'A merge holds, for each key, the data of all source databases in order',
      'Merging databases yields one database with, for each key, the concatenation of the elements of the sources in the order of the configurations.',
      ['inputs', 'configurations'], 'every set of source databases, any sizes and memory limit',
      'The merge test uses equal small files.', ['src/ConfDataDBMerger.h'], 'ConfDataDBMerger::merge and its memory-limited rounds',
      na='equality of merged values across rounds whose number depends on run-time sizes; failures during a merge are judged by P16, ownership by P17, element bounds by P20'),
    P('N06', 'Concurrent calls on one handle behave as if made one after another',
      'Calls made by several threads on one database handle return what some order of those calls would have returned.',
      ['schedules'], 'every interleaving of calls of any threads',
      'The thread test samples schedules.', ['filehash/ffdb_hash.c', 'filehash/ffdb_pagepool.c'], 'table lock, cache lock',
      na='linearizability quantifies over interleavings and stored values; the lock discipline that supports it is judged by P04 and P08'),
]
