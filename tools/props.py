#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, level="exploration", state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                  files=files.split(), mech=mech, technique=technique, note=note, observe=observe or [], level=level, state=state or []))

p("C01", "Board records keep every field at its documented place, both ways",
  "Reading a board record laid out as the pttbbs board structure (256 bytes, little endian, Big5 text) yields exactly the stored value of every field: name, title, moderators, attributes, limits, times, class links, counters and post types. Writing a board record stores every field's value at that same place, so reading and writing are inverse to each other whatever the values are. A time which was never set is stored as zero.",
  "inputs", "every value of every field within its range (all 8-bit, 16-bit and 32-bit values, any text that fits), and any bytes in the padding",
  "The tests decode one recorded file and re-encode it; most of its fields are zero, equal or small, so swapped, shifted, truncated or sign-broken fields look the same.",
  "pttbbs/board.go pttbbs/encoding.go", [("field position constants and the decode/encode pair", "pttbbs/board.go:UnmarshalBoardHeader, BoardHeader.MarshalBinary")],
  "property-based testing: generated records against an independent layout table, both directions",
  "Random exploration with boundary-heavy values against a reference layout written from pttstruct.h; padding bytes are ignored.",
  ["the exported fields and getters of the decoded record", "the encoded bytes"])

p("C02", "Article index records keep every field at its documented place, both ways",
  "Reading an article index record laid out as the pttbbs file header (128 bytes) yields exactly the stored file name, modification time, recommend count (signed), owner, date, title, file mode and the value of the shared four-byte slot: money, or the anonymous poster's id, or the four vote limits, as the mode bits say. Writing an article record stores each of these at the same place, so reading and writing are inverse to each other.",
  "inputs", "every field value within its range, every file mode, any padding",
  "The tests decode recorded index files in which the mode, money and recommend fields are almost always zero.",
  "pttbbs/file.go pttbbs/encoding.go", [("field positions and the decode/encode pair, union selected by mode", "pttbbs/file.go:NewFileHeaderWithByte, FileHeader.MarshalToByte")],
  "property-based testing: generated records against an independent layout table, both directions",
  "Random exploration with boundary-heavy values against a reference layout; the 4-byte slot is compared as 32 bits.")

p("C03", "User account records keep every field at its documented place, both ways",
  "Reading a user account record laid out as the pttbbs account structure (512 bytes) yields exactly the stored value of every field: id, names, password hash, flags, levels, counters, times, host, money (signed), contact data, role, game scores and ratings. Writing an account record stores every field at the same place, so reading and writing are inverse to each other.",
  "inputs", "every field value within its range, any padding",
  "The tests use one recorded account file; in it most counters and scores are zero, so exchanged or overlapping fields are invisible.",
  "pttbbs/passwd.go pttbbs/encoding.go", [("field positions and the decode/encode pair", "pttbbs/passwd.go:UnmarshalUserec, Userec.MarshalBinary")],
  "property-based testing: generated records against an independent layout table, both directions",
  "Random exploration with boundary-heavy values against a reference layout written from pttstruct.h.")

p("C04", "Online-user records keep every field at its documented place, both ways",
  "Reading an online-user record laid out as the pttbbs shared-memory structure (3484 bytes, C alignment) yields exactly the stored value of every public field: level, friends and their online states, rejects, messages, modes, chat, game scores, rating and times. Writing an online-user record stores every field at the same place, so reading and writing are inverse to each other.",
  "inputs", "every field value within its range, every element of the arrays, any padding",
  "The test compares one dump with itself re-encoded; a field that is read and written at the same wrong place passes.",
  "pttbbs/userinfo.go", [("field positions and the decode/encode pair", "pttbbs/userinfo.go:UnmarshalUserInfo, UserInfoCache.MarshalBinary")],
  "property-based testing: generated records against an independent layout table, both directions",
  "Random exploration against a reference layout computed from the C declaration (alignment included); unexported fields without a getter are compared through re-encoding.")

p("C05", "A favourites tree survives reading and writing unchanged",
  "Reading a favourites file yields the tree it holds: boards with number, last visit and attribute, separator lines, and folders with their title and the entries of their own sub-tree, in order and at any nesting. Writing the tree gives a file that reads back as the same tree, folder and line numbers being counted from one in each folder.",
  "inputs", "any tree: any mix and order of entries, any nesting, wide folders, several folders in one folder, any attribute bits and times",
  "The tests decode two recorded files with a handful of entries; order of sub-folders, wide folders and deep nesting are not reached.",
  "pttbbs/fav.go", [("recursive decode/encode, sub-folders after the entries", "pttbbs/fav.go:UnmarshalFavFolder, FavFolder.MarshalBinary")],
  "property-based testing: generated trees against an independent encoder and parser",
  "Random exploration of trees with recursive generators; the reference parser and encoder are written separately.")

p("C06", "Over-long values never spill into neighbouring fields or change the record size",
  "When a text value is longer than its field, writing a board, article, user account or favourites record still gives a record of the fixed length in which every other field has the value it would have with a short text. The over-long field itself holds leading bytes of the value.",
  "inputs", "any text longer than the field, in any text field, with any values in the other fields",
  "No existing test writes a value that does not fit.",
  "pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/fav.go", [("bounded copy into the slice of the field", "MarshalBinary / MarshalToByte of the records")],
  "property-based testing: metamorphic comparison of records with a short and an over-long value",
  "Random exploration; every settable text field of each record is lengthened.")

p("C07", "A record file is read as exactly its complete records, in order",
  "Reading a board list, article index, user account, online-user or Formosa index file of any length returns one record for each complete record in the file, in file order, and nothing for a trailing part of a record. A file which is missing or cannot be read is an error, never an empty or shortened list.",
  "inputs", "any number of records (none, one, many thousands), any length of a trailing part, files, directories and missing paths",
  "The tests read a few small recorded files whose sizes are multiples of the record length.",
  "pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/userinfo.go formosabbs/file.go", [("read loop over fixed-size records", "OpenBoardHeaderFile, OpenFileHeaderFile, OpenUserecFile, OpenUserInfoCache, OpenFormosaBBSFileHeaderFile")],
  "property-based testing: generated files of any length against a reference splitter",
  "Random exploration over record counts, trailing parts and unreadable paths.")

p("C08", "Text fields end at their first NUL, whatever stale bytes follow",
  "A text field of a stored record reads as the bytes before its first NUL, and bytes which an earlier, longer value left after that NUL never change what is read. This holds for every text field of board, article, user account, online-user, favourites and Formosa index records.",
  "inputs", "any text and any bytes after its terminating NUL, including further NULs, ids and half characters",
  "The recorded files of the tests have mostly zeroed fields, so a decoder that only trims NULs at the ends passes.",
  "pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/userinfo.go pttbbs/fav.go formosabbs/file.go cstr.go", [("C string conversion of a fixed field", "cstr.go, newStringFormCString, newStringFormBig5UAOCString")],
  "property-based testing: metamorphic, the bytes after the NUL are replaced by junk",
  "Random exploration; each case decodes the same record with clean and with stale fields.")

p("C09", "A damaged favourites file is refused cleanly, never misread",
  "Any byte sequence given as a favourites file is either decoded to exactly the tree it describes or refused with an error; it never panics, hangs or invents entries. Every proper prefix of a valid file, and every file with an unknown entry type or counts beyond its data, is refused.",
  "inputs fault_sequences", "all byte sequences: truncations at every offset, bit flips, impossible counts, random bytes",
  "The tests only read well-formed files.",
  "pttbbs/fav.go", [("bounds checks before each access", "pttbbs/fav.go:UnmarshalFav*")],
  "structured fuzzing: truncation at every offset and mutations of generated files, differential against an independent parser",
  "Fault enumeration over truncation points of each generated file plus random mutations; accept/reject and content must agree with the reference parser.")

p("C10", "Favourites name the right boards, and missing boards are blank",
  "Reading a user's favourites gives, for each board entry at any depth, the name of the board at that one-based position of the board list. An entry which refers to a position outside the list has a blank name and affects no other entry. Only a folder has entries of its own, and a line is shown as a row of dashes. A user without a favourites file has no favourites and that is not an error.",
  "inputs", "any favourites tree with any board list, board numbers 0, 1, the last, past the end and up to 2^32-1",
  "The test has one user with valid board numbers.",
  "pttbbs/pttbbs.go pttbbs/fav.go bbs.go", [("board numbers resolved against the board list after reading", "pttbbs/pttbbs.go:ReadUserFavoriteRecordsFile, appendBoardID")],
  "property-based testing: generated board lists and trees against a reference resolution",
  "Random exploration through the public database API.")

p("C11", "The board list follows every history of additions and removals",
  "After any sequence of adding board records and removing the record at a position, reading the board list gives the records a plain list would hold after the same sequence, with all their fields. Removing a position that does not exist is refused and changes nothing.",
  "histories", "any sequence of additions, removals (first, middle, last, outside) and re-reads",
  "The tests remove one record from one file and append to one file.",
  "pttbbs/board.go pttbbs/pttbbs_write_board_connector.go bbs.go", [("append at the end; removal moves the rest forward and truncates", "AppendBoardHeaderFileRecord, RemoveBoardHeaderFileRecord")],
  "stateful property-based testing against a list model",
  "Random histories; the model is a list of independently encoded records.")

p("C12", "The article index follows every history of postings, edits and votes",
  "After any sequence of appending article records, replacing the record at a position and adding votes, reading the index gives the records a plain list would hold, every other record being untouched. The vote count of an article moves by the votes given and stops at +100 and -100. Replacing a position that does not exist is refused and changes nothing.",
  "histories", "any sequence of appends, replacements at any position, votes and re-reads",
  "The tests append and update one record; counts never get near the limits.",
  "pttbbs/file.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go", [("append, in-place update at position*128, clamped votes", "AppendFileHeaderFileRecord, UpdateFileHeaderFileRecord, FileHeader.AddRecommend")],
  "stateful property-based testing against a list model",
  "Random histories through the public connector API.")

p("C13", "A record torn by a crash is skipped and does not shift later records",
  "When a crash leaves only the first bytes of the last record of a board list or article index, reading gives all records before it. Records appended afterwards are read back whole, each at its own place, with no trace of the torn one. The torn record is none for any operation: updating or removing it is refused, and updating or removing another one leaves the rest.",
  "crash_points histories", "every length of a torn record, after any number of records, followed by any number of appends and further crashes",
  "No test writes to a file whose length is not a multiple of the record length.",
  "pttbbs/board.go pttbbs/file.go", [("the torn record is cut off before appending; readers take complete records only", "dropTornRecord, OpenBoardHeaderFile, OpenFileHeaderFile")],
  "fault injection inside stateful property-based testing: the crash point is part of the case, every offset is enumerated",
  "Each case enumerates all 1..255 (board) or 1..127 (article) torn lengths for its history; a crash is modelled as a shortened file, not as reordered sectors.", level="fault_enumeration")

p("C14", "Article files hold exactly what was written and then appended",
  "Reading an article gives the bytes of the last complete write followed by everything appended since, in order, whatever the bytes and however the new content compares in length with the old. Appending to an article that does not exist is refused and creates nothing.",
  "histories", "any sequence of writes and appends of any content and size, empty content included, to several articles",
  "The tests write and append one short text each.",
  "pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go pttbbs/pttbbs.go bbs.go", [("truncating write and O_APPEND append", "WriteBoardArticleFile, AppendBoardArticleFile, ReadBoardArticleFile")],
  "stateful property-based testing against a byte-string model",
  "Random histories over several boards and articles through the public database API.")

p("C15", "Concurrent appends are all kept, whole, and in each writer's order",
  "When several writers append at the same time to one article index, one board list or one article, every appended record or text is present afterwards exactly once and undivided. The appends of each single writer appear in the order in which it made them.",
  "schedules", "any number of concurrent writers (through one or several open databases, threads or processes) and any record or text sizes",
  "The tests append from one goroutine.",
  "pttbbs/board.go pttbbs/file.go pttbbs/pttbss_append_new_line.go", [("one O_APPEND write per record", "AppendBoardHeaderFileRecord, AppendFileHeaderFileRecord, AppendBoardArticleFile")],
  "property-based testing of concurrent histories: generated writer programs run on real threads and processes, the result checked by a validity predicate",
  "Statistical over schedules: the operating system chooses the interleaving, so absence is not established; writers start together and many rounds are run.")

p("C16", "Every created article gets a fresh file name of its own",
  "Creating an article reserves a file name of the form M.<time>.A.<three hex digits> which no other article of the board has, and creates its file, also when many are created at the same moment by several threads or processes. An existing article is never touched by it, and creating an article in a board without a directory is an error that returns promptly.",
  "schedules inputs", "any number of concurrent creators, any set of names already taken, missing boards",
  "The test creates a single name in a fixture board.",
  "pttbbs/pttbbs_write_article_connector.go bbs.go", [("exclusive creation, retried while the name is taken", "CreateBoardArticleFilename")],
  "property-based testing: concurrent creators on directories with generated pre-existing names, uniqueness predicate",
  "Names are occupied ahead of time so that collisions are frequent; the schedule is the operating system's.")

p("C17", "A posted article is listed and readable exactly as posted",
  "After posting an article (create, write the content, add to the index), listing the board shows it last with its owner, date and title, and reading it gives the content back. Articles posted before it, on this and on other boards, are listed and read as before.",
  "histories", "any sequence of postings on any boards with any owner, date, title and content, interleaved with re-reads through freshly opened databases",
  "The tests exercise the steps one by one with one article.",
  "bbs.go pttbbs/pttbbs_write_article_connector.go pttbbs/file.go pttbbs/path.go", [("CreateArticleRecord, WriteBoardArticleFile, AddArticleRecordFileRecord", "bbs.go")],
  "stateful property-based testing against a model of boards and articles",
  "Random posting histories through the public database API.")

p("C18", "Password hashing agrees with traditional DES crypt(3)",
  "Hashing any password with any two-character salt of the crypt alphabet gives exactly what the traditional DES crypt(3) gives: only the first eight bytes of the password count, up to the first NUL, and their low seven bits. A salt which is shorter than two bytes or not ASCII is an error, never a panic.",
  "inputs", "all passwords (any bytes, any length) with all 4096 salts; arbitrary bytes as salt",
  "The tests hash a few recorded passwords.",
  "crypt/bbscrypt.go crypt/crypt.go crypt/const.go crypt/utils.go", [("table-driven DES with the salt mixed into the E box", "crypt/crypt.go")],
  "differential property-based testing against an independently written bit-level DES crypt",
  "Random exploration plus all 4096 salts; the reference is written from the DES standard and is itself checked against known vectors.")

p("C19", "A password is accepted exactly when it matches the stored hash",
  "Verifying a password against an account succeeds if and only if its hash under the salt of the stored hash equals the stored hash. A stored hash that is empty, damaged or not a hash at all is refused with an error and never accepted, and never panics.",
  "inputs", "any password, any stored password field: right hashes, near misses in every character, truncated, empty and random fields",
  "The tests verify one right password.",
  "pttbbs/passwd.go crypt/bbscrypt.go", [("recompute and compare", "Userec.VerifyPassword")],
  "property-based testing against the independent DES crypt as oracle",
  "Random exploration; accounts are built as stored records so the whole path from the file is covered.")

p("C20", "Big5 text survives conversion, and an unknown character costs only itself",
  "Converting Big5 text to UTF-8 and back gives the original bytes for every sequence of ASCII and canonical Big5 characters, including those whose second byte is a backslash or a vertical bar. In the other direction a character that Big5 does not have is replaced by a single substitute and everything before and after it is kept; so is, in Big5, a byte which is no character and half a character at the end. No input panics.",
  "inputs", "all sequences of ASCII and canonical double-byte characters, mixed with characters outside Big5 and with invalid UTF-8",
  "The tests convert a few fixed strings.",
  "big5.go pttbbs/encoding.go", [("x/text Big5 codec", "big5.go")],
  "property-based testing: round trip and compositional oracle, plus all canonical double-byte characters",
  "Every canonical two-byte code is tried in every run; sequences are random. The canonical set comes from the code table of x/text, checked for self-consistency.")

p("C21", "The ANSI filter removes the escape sequences and nothing else",
  "Filtering a text built from plain text and ANSI colour, cursor movement and erase sequences gives exactly the plain text. A text without an escape character comes back unchanged, and filtering twice gives the same as filtering once for such texts.",
  "inputs", "any interleaving of plain text (any Unicode text) and well-formed control sequences with any parameters of up to four digits",
  "The test filters one coloured line.",
  "ansi.go", [("one regular expression", "ansi.go:FilterStringANSI")],
  "property-based testing: constructive oracle, the plain parts are known",
  "Random exploration over the sequences that BBS articles use (SGR, cursor movement, erase); malformed sequences are outside the statement.")

p("C22", "C strings end at the first NUL and never reach beyond the buffer",
  "Converting a fixed-length byte buffer to a string gives the bytes before the first NUL, or the whole buffer when it has none, for any buffer and without changing it.",
  "inputs", "all byte sequences, empty included",
  "The tests convert a table of ten buffers.",
  "cstr.go", [("IndexByte", "cstr.go:CstrToBytes, CstrToString")],
  "property-based testing: reference scan plus extension laws",
  "Random exploration with NULs at all positions.")

p("C23", "A comment line is read as its author, its text and its time",
  "For a line of the form '<mark> <author>: <text> <MM/DD hh:mm>' the author is the whole id in front of the first such colon, the time is the last time stamp of the line, and the comment is the text between the two without surrounding blanks, whatever colons, time stamps or ids the text itself contains. A line which has no author or no time stamp is reported as not being a comment.",
  "inputs", "any author id, any text, any valid date and time, any mark; lines with parts missing",
  "The tests parse four fixed lines.",
  "user_comment_record.go", [("one regular expression and slicing", "user_comment_record.go:parseUserComment")],
  "property-based testing: constructive oracle, lines are built from known parts",
  "Random exploration, texts rich in colons, digits and look-alike time stamps.")

p("C24", "The comments of an article are all its comment lines, numbered in order",
  "Listing an article's comments gives one entry for each comment line of the article, in file order, numbered 1, 2, 3 and so on without gaps, with that line's author, text and time and the article's board and file name. Body lines, colour codes, line ends and lines of any length do not add, hide or renumber comments.",
  "inputs", "any article: any number of comments and body lines in any order, coloured or not, lines of any length, with or without final newline",
  "The test reads one recorded article.",
  "bbs.go user_comment_record.go ansi.go", [("line scanner, colour filter, comment parser", "bbs.go:GetBoardArticleCommentRecords")],
  "property-based testing: generated articles against the list of comments they were built from",
  "Random exploration through the public database API.")

p("C25", "A user's comments are found on all boards, and only theirs",
  "Listing a user's comments gives every comment by that user in the articles listed on every board, and nobody else's: in the order of the board list, the index and the article. The pseudo board ALLPOST and vacated slots of the board list are left out. An article whose file is gone or a board without articles does not hide the rest, nor turn the listing into an error.",
  "inputs", "any set of boards, articles and comments by several users with similar ids, with vacated slots, deleted articles, boards without index",
  "The test has one board with one article and mocks.",
  "bbs.go user_comment_record.go", [("scan over boards, indexes and articles", "bbs.go:GetUserCommentRecordFile, GetBoardUserCommentRecord")],
  "property-based testing: generated BBS trees against a reference listing",
  "Random exploration through the public database API on real files.")

p("C26", "A user's articles are found on all boards, and only theirs",
  "Listing a user's articles gives every article of every board's index whose owner is exactly that user, with its board, title, owner and file name, in the order of the board list and the index. The pseudo board ALLPOST and vacated slots of the board list are left out, and a board without an index contributes nothing.",
  "inputs", "any set of boards and indexes with owners whose ids share prefixes or differ in case, vacated slots, boards without index",
  "The test reads one fixture user.",
  "bbs.go user_article_record.go", [("scan over boards and indexes", "bbs.go:GetUserArticleRecordFile")],
  "property-based testing: generated BBS trees against a reference listing",
  "Random exploration through the public database API on real files.")

p("C27", "Login attempt lines survive writing and reading, in both log formats",
  "A login attempt written as a line of the global log (outcome mark, id padded to twelve, time, host) or of a user's own log (time, host) reads back as the same outcome, id, time and host, and the line has that documented form. A log file gives one attempt for each line, in order.",
  "inputs", "any id of 2 to 12 characters, any second of any year, any host, both outcomes, any number of lines",
  "The tests use ten fixed lines.",
  "pttbbs/bad_logins.go", [("MarshalText/UnmarshalText pair", "pttbbs/bad_logins.go")],
  "property-based testing: round trip and an independent line builder",
  "Random exploration; the week day is computed from the date.")

p("C28", "A malformed login log is an error, never a crash or an invented entry",
  "Reading a failed-login log or a recent-login log which contains a malformed line (one that has no mark, id or time in its place, ends before the host, or states an impossible time) or which cannot be read to its end returns an error; it never panics or ends the process. When no error is returned there is exactly one entry for each line, with the values of that line.",
  "inputs fault_sequences", "all byte sequences as lines: prefixes of valid lines at every length, mutated, random and very long lines",
  "The tests only read well-formed logs.",
  "pttbbs/bad_logins.go pttbbs/login_recent.go", [("length checks, error returns", "UnmarshalText, OpenBadLoginFile, OpenLoginRecentFile")],
  "structured fuzzing: every prefix of generated lines plus mutations, differential against an independent parser",
  "Truncation at every offset is enumerated per generated line; random mutations otherwise.")

p("C29", "The recent-login list gives each login's time and host in order",
  "Reading a recent-login file gives one entry for each line, in order, with exactly the time and the host which the line states.",
  "inputs", "any number of lines, any valid date and time, any host (addresses and names), with or without trailing fields and final newline",
  "The test reads one recorded file.",
  "pttbbs/login_recent.go", [("split at blanks", "pttbbs/login_recent.go")],
  "property-based testing: constructive oracle",
  "Random exploration.")

p("C30", "Every user, board and treasure has its own documented path",
  "The path of each kind of file (accounts, board list, favourites, drafts, mail, recent logins, index, article, treasure, board name) is the one the directory scheme documents for the given home, id and names; distinct ids or names have distinct paths. Computing a path never changes the caller's arguments, whatever the spare capacity of a passed list, and an empty id is an error.",
  "inputs", "any home, id, file name and treasure path of any depth, lists with spare capacity shared with other lists",
  "The tests compare one path of each kind.",
  "pttbbs/path.go", [("format strings", "pttbbs/path.go")],
  "property-based testing: reference path builder, injectivity and aliasing checks",
  "Random exploration over ids and names free of path separators (which callers must guarantee).")

p("C31", "Each opened BBS keeps reading and writing its own data",
  "Several databases opened on different homes, in any order and by any number of threads, each keep reading from and writing to the home they were opened with. A home may be given as a plain path, as a file URL, and with parameters after a question mark; an unknown driver is an error.",
  "histories configurations", "any interleaving of opening databases on several homes and of reads and writes through any of them",
  "The tests open one database per process.",
  "bbs.go pttbbs/pttbbs.go", [("a connector per opened database", "bbs.go:Open, pttbbs/pttbbs.go:Connector.Open, NewConnector")],
  "stateful property-based testing against a model of several homes",
  "Random histories over up to four homes and many handles.")

p("C32", "Drafts are independent slots that hold exactly what was saved last",
  "After any sequence of saving, reading and deleting drafts, each draft of each user holds exactly the bytes last saved to it; a draft that was never saved or was deleted reads as empty. An operation on one draft never changes another one, and deleting a draft that does not exist is an error.",
  "histories", "any sequence of operations on any users, slots and contents (shorter, longer, empty, binary)",
  "The tests read, write and delete one draft with mocks.",
  "pttbbs/draft.go user_draft.go bbs.go pttbbs/path.go", [("one file per slot", "pttbbs/draft.go")],
  "stateful property-based testing against a map model",
  "Random histories through the public database API.")

p("C33", "A shared region keeps its contents and is the same to everyone who opens it",
  "Bytes stored in a shared region, file-backed or System V, are seen by every other opening of the same region, at once and after closing and reopening, and the region has the size it was created with. The connection string picks the region: a key, a file URL or a plain path, also with colons in the path; an unknown scheme, a bad key and a missing region are errors. Removing a region makes opening it fail. When a system call fails, creating, opening and removing either do what they have to or return an error.",
  "histories configurations fault_sequences", "any sequence of creating, opening, storing, closing and removing regions of any size and either kind, any failing system call",
  "The tests store four bytes once in one region.",
  "cache/cache.go cache/mmap.go cache/systemvshm.go cache/mmap_unix.go cache/systemvshm_unix.go", [("MAP_SHARED mapping and shmat", "cache/")],
  "stateful property-based testing against a byte-array model, with injected system call failures",
  "Random histories, and one failing call after the other; System V keys are private to the run and removed afterwards.")

p("C34", "Shared-memory readers return the values of the documented layout",
  "For any server configuration (number of users, id length, hash size, cool-down table, alignment) the version, and each user's id, money and online record read from the shared memory are exactly those stored at their documented place, from the first to the last user.",
  "configurations inputs", "all configurations in range and any contents of the region",
  "The test reads one prepared region with one configuration.",
  "pttbbs/cache.go pttbbs/userinfo.go", [("positions computed from the settings", "pttbbs/cache.go:caculatePos")],
  "property-based testing: generated configurations and contents against an independently computed layout",
  "Random exploration over configurations; out-of-range users are the caller's duty and not generated.")

p("C35", "What was read stays as it was when its source changes",
  "Records and online-user data obtained from a buffer, file or shared memory do not change when that buffer is overwritten, the file is rewritten or the shared memory changes later, and the shared memory does not change when the obtained data is modified.",
  "inputs histories", "any record, followed by any overwriting of its source or of the record",
  "The tests never change the source after reading.",
  "pttbbs/userinfo.go pttbbs/cache.go pttbbs/fav.go pttbbs/board.go pttbbs/file.go pttbbs/passwd.go", [("decoders copy", "Unmarshal* functions")],
  "property-based testing: metamorphic, the source is overwritten after decoding",
  "Random exploration over all record kinds.")

p("C36", "Board attributes, limits, moderators and class links read as stored",
  "Each yes/no attribute of a board is true exactly when its own documented bit of the attribute word is set, independent of all other bits. The moderators are the stored list split at slashes (none when it is empty), the class id is the stored parent number in decimal, a board is a class exactly when its group bit is set, and the posting limits are the stored ones.",
  "inputs", "all 2^32 attribute words, all moderator lists, numbers and limits",
  "The tests check the attributes of a few recorded boards.",
  "pttbbs/board.go bbs.go", [("bit masks", "pttbbs/board.go: Is* getters, BM, ClassID")],
  "property-based testing: reference bit table; every single bit and pair of bits enumerated",
  "Single bits, pairs and random words, read through the public board listing.")

p("C37", "No operation leaves a file open, whether it succeeds or fails",
  "After any sequence of reading, listing, posting, appending, removing and drafting operations, including failing ones (missing, unreadable and malformed files, boards without directory), the process has exactly as many open files as before.",
  "histories fault_sequences", "any sequence of operations with any of them failing for any reason",
  "No test looks at open files, and a test process never lives long enough to run out of them.",
  "bbs.go pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/userinfo.go pttbbs/bad_logins.go pttbbs/login_recent.go pttbbs/pttbbs.go pttbbs/pttbbs_write_article_connector.go formosabbs/file.go cache/mmap.go", [("deferred close", "every function that opens a file")],
  "stateful property-based testing with an open-descriptor invariant",
  "Random histories; garbage collection is disabled during a case so that a finalizer cannot hide a leak.")

p("C38", "The user-id hash equals 32-bit FNV-1a from any starting value",
  "Hashing any bytes from any 32-bit starting value gives the FNV-1a result for that start, however the bytes are split into writes, and resuming from a previous result equals hashing the concatenation.",
  "inputs", "all byte sequences, all starting values, all ways to split",
  "The tests hash five fixed strings.",
  "pttbbs/internal/fnv/fnv.go", [("state of the standard hash is patched", "pttbbs/internal/fnv/fnv.go:New32aWith")],
  "differential property-based testing against a four-line reference",
  "Random exploration; the internal package is reached through a build overlay.")

p("C39", "A token is issued only for the right password, and names its user for 30 min",
  "A login request gets an access token if and only if the user name is exactly that of an account and the password matches it; otherwise it gets an error and no token. A token is a bearer token signed by the server's key whose subject is that user and whose life ends thirty minutes after the login.",
  "inputs", "any set of accounts and any sequence of login requests: right, wrong, empty, over-long and look-alike names and passwords, in form or query",
  "No test logs in.",
  "serverlet/route_token.go serverlet/main.go", [("find the account, verify, sign", "serverlet/route_token.go:postToken")],
  "property-based testing of the running server: generated account files and requests against a reference decision",
  "End to end over the loopback network; the server binary is built from the tree and started on generated account files.")

p("C40", "The user information endpoint reports exactly the stored account",
  "Asking for a user's information returns that user's id, names, day and post counts, money, last login time and host exactly as stored in the account file, and never another user's. An unknown user and an unknown item are reported with an error status.",
  "inputs", "any account file (any text, negative and large numbers, vacated slots, ids sharing prefixes) and any user and item",
  "The test asks for one mock user and looks at the id.",
  "serverlet/route_users.go serverlet/main.go", [("look up by id, map to JSON", "serverlet/route_users.go:getUserInformation")],
  "property-based testing of the running server: generated account files against a reference answer",
  "End to end over the loopback network.")

p("C41", "The command line tool shows and changes exactly what the BBS holds",
  "Each listing command of the tool prints exactly one line for each board, user, article or comment that the BBS holds, in order and with the board's title, the user's id, the article's title, or the comment's number, author and time; the article command prints the article's text. Adding a board or posting an article with the tool, content given directly or by file, has exactly the effect of the library operation. A command which lacks an argument or its BBS says so, changes nothing and does not crash.",
  "histories inputs", "any BBS content and any sequence of commands with any arguments",
  "The tool has no tests.",
  "cmd/bbstool/main.go cmd/bbstool/articles.go", [("argument map and library calls", "cmd/bbstool")],
  "stateful property-based testing of the built binary against a model of the BBS",
  "End to end: each step runs the binary built from the tree on a scratch home.")

p("C42", "Formosa article indexes are read with every field as stored",
  "Reading a Formosa BBS index record (248 bytes) yields exactly the stored file name, owner, title, post number and modification time for any values.",
  "inputs", "every field value within its range, any bytes elsewhere",
  "The tests read two recorded files.",
  "formosabbs/file.go", [("field positions", "formosabbs/file.go:NewFomosaBBSFileHeaderWithByte")],
  "property-based testing: generated records against an independent layout table",
  "Random exploration; fields which the decoder does not read are ignored.")

p("C43", "Each preference of a user is the state of its own flag bit",
  "For any flag word of an account, each of the fifteen user preferences is true exactly when its own documented bit is set, independent of all other bits, and they are those of the account with exactly the asked id; an unknown id is an error.",
  "inputs", "all 2^32 flag words, any set of accounts",
  "The test table of the preferences is empty.",
  "pttbbs/usersettings.go pttbbs/const.go", [("bit masks", "pttbbs/usersettings.go:getUserFlagAllByID")],
  "property-based testing: reference bit table; every single bit and pair of bits enumerated",
  "Reached through a build overlay because the code exports no entry; accounts are decoded from generated records.")

p("C44", "Treasure areas list and open exactly the articles stored at their path",
  "Listing and opening articles of a board's treasure area at any depth gives exactly the records and bytes stored under that path, and never those of another level, of another board or of the board itself. A path that does not exist is an error.",
  "inputs", "any tree of treasure folders with any indexes and contents, any path in and outside of it",
  "The tests only compare one path.",
  "bbs.go pttbbs/pttbbs.go pttbbs/path.go", [("path of the treasure directory, record reader", "bbs.go:ReadBoardTreasureRecordsFile, ReadBoardTreasureFile")],
  "property-based testing: generated treasure trees against a reference map",
  "Random exploration through the public database API on real files.")

p("C45", "An optional file that is missing reads as empty; other failures are errors",
  "A board without an index, a user without favourites and a draft that was never saved read as empty without an error. A missing account file, board list, article, treasure index or treasure article, and any of these that cannot be read, is an error and not an empty result.",
  "configurations fault_sequences", "any subset of a BBS's files missing or unreadable (directory in place of the file), any id",
  "The tests run on a complete fixture.",
  "bbs.go pttbbs/pttbbs.go pttbbs/draft.go", [("existence checks", "bbs.go:ReadBoardArticleRecordsFile, pttbbs.go:ReadUserFavoriteRecordsFile, draft.go:ReadUserDraft")],
  "property-based testing with injected faults: files removed or replaced, reference outcome table",
  "Every kind of file is removed or replaced in turn within each generated BBS.")

p("C46", "Each database operation works on its driver's own paths and reports its errors",
  "With any driver, an operation of the database gives the driver the board, user, folder and file it was asked for, works on exactly the path which the driver names for them, hands over the data it was given, and returns exactly what the driver returns. An error of the driver at any step is an error of the operation and nothing is done after it. A driver without the needed part is an error, not a crash. Cached lists of a user's articles and comments are returned when the driver has them, and made by searching all boards when it has none.",
  "inputs configurations fault_sequences", "any driver (any subset of its optional parts, any paths, data and errors at any step), any arguments",
  "The tests have one fixed mock driver which never fails.",
  "bbs.go", [("delegation to the registered driver", "bbs.go:DB"), ("cached lists", "bbs.go:GetUserArticleRecordFile, GetUserCommentRecordFile")],
  "property-based testing against a recording fake driver with injected errors",
  "Random exploration of drivers and arguments through the public registry.")

p("C47", "The boards endpoint lists every stored board, in order",
  "Asking for the boards returns one entry for each record of the board list, in stored order, each with the board's name and stored numbers and times, however many clients ask at the same time.",
  "inputs schedules", "any board list, any number of clients",
  "No test asks for the boards.",
  "serverlet/route_boards.go serverlet/main.go", [("map the board list to JSON", "serverlet/route_boards.go:getBoards")],
  "property-based testing of the running server: generated board lists against a reference answer",
  "End to end over the loopback network.")

p("C48", "New records hold exactly the given values; incomplete ones are refused",
  "A board or article record made from arguments has exactly the given id, title, owner and date, and nothing else set, before and after it is stored, any number of times; arguments nobody asked for change nothing. The text of a new article is its head, '作者: <owner> 看板: <board>', '標題: <title> ' and '時間: <date>' on a line each, in Big5. When an argument is missing or is no string, the request is an error and no article file is made. A record of another driver is refused, and the file it was to be stored in stays as it was.",
  "inputs histories", "any arguments: any texts that fit, any of them missing or of another type, any further ones; any record of another type; any file contents",
  "The tests make one board and one article from complete arguments.",
  "pttbbs/pttbbs_write_board_connector.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go",
  [("arguments of a new board or article", "pttbbs/pttbbs_write_board_connector.go:NewBoardRecord, pttbbs/pttbbs_write_article_connector.go:NewArticleRecordWithMap"), ("type of the record", "AddBoardRecordFileRecord, AddArticleRecordFileRecord, UpdateArticleRecordFileRecord")],
  "property-based testing: generated argument maps and foreign records against a reference record and a listing of the files",
  "Random exploration through the public API on real files; empty texts are not used.")

p("C49", "A write that cannot be completed is reported and leaves what was stored",
  "When the space for a write runs out at any byte, or any system call of the operation fails, the operation returns an error or has done all it was asked to; when it returns none, all of it is stored. A failed posting of a board, an article or a line of text leaves everything stored before readable as it was; a failed update or removal leaves every record it did not have to move; and what is stored later lands whole.",
  "inputs histories fault_sequences", "any history of additions, updates, removals, writes and appends, the space running out at any byte of any of them, or any system call of them failing with any error",
  "In the tests no write ever fails.",
  "pttbbs/board.go pttbbs/file.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go pttbbs/draft.go",
  [("error of a short write is returned", "pttbbs/board.go:AppendBoardHeaderFileRecord, RemoveBoardHeaderFileRecord; pttbbs/file.go:AppendFileHeaderFileRecord, UpdateFileHeaderFileRecord; WriteBoardArticleFile, AppendBoardArticleFile, WriteUserDraft"), ("torn tail is dropped", "pttbbs/board.go:dropTornRecord")],
  "property-based testing with injected faults: generated histories with the file size limited at a drawn byte or the n-th system call failing, against a reference model",
  "The kernel cuts the real writes short (RLIMIT_FSIZE) and refuses the drawn call (seccomp user notification); errors of closing and syncing are not injected.", level="fault_enumeration")

p("C50", "A failed read is an error, never a shorter or different answer",
  "When any system call of a reading operation fails - opening a file, reading any part of it, looking for one - the operation returns an error or the answer it would have given anyway: never records, lines or users that are fewer or others, and never nothing. Once the fault is over, the same call gives the full answer again.",
  "inputs fault_sequences", "any BBS, any reading operation, any of its system calls failing with any error, once or from then on",
  "In the tests files are there or missing; no read of one ever fails.",
  "pttbbs/pttbbs.go pttbbs/file.go pttbbs/board.go pttbbs/passwd.go pttbbs/fav.go pttbbs/login_recent.go pttbbs/bad_logins.go bbs.go",
  [("errors of opening and reading are returned", "pttbbs/board.go:OpenBoardHeaderFile, pttbbs/file.go:OpenFileHeaderFile, pttbbs/passwd.go:OpenUserecFile, pttbbs/pttbbs.go, bbs.go"), ("only a missing file counts as none", "pttbbs/pttbbs.go, bbs.go")],
  "property-based testing with injected faults: each generated operation with its n-th system call failing, against its undisturbed answer",
  "The kernel itself refuses the drawn system call of the real operation (seccomp user notification); where a sandbox has no such notification the arm degrades and says so.", level="fault_enumeration")

p("C51", "Operations which overlap in any way leave what whole operations leave",
  "Appends to an article index, a board list or an article, updates of different records, creations of articles and reads may overlap between any two of their system calls: every append lands once, whole and in its writer's order, every update changes its record alone, creators get different files, and a reader sees a state in which each operation has been done or not. Operations on different BBSes at the same time each give what they give alone.",
  "inputs schedules", "any programs of up to three threads, any interleaving of their system calls",
  "The tests run one operation at a time.",
  "pttbbs/board.go pttbbs/file.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go pttbbs/pttbbs.go",
  [("one appending write per record", "pttbbs/board.go:AppendBoardHeaderFileRecord, pttbbs/file.go:AppendFileHeaderFileRecord"), ("in-place write at the record's offset", "pttbbs/file.go:UpdateFileHeaderFileRecord"), ("exclusive creation", "pttbbs/pttbbs_write_article_connector.go:CreateBoardArticleFilename")],
  "property-based testing of schedules: generated programs under drawn interleavings of their system calls, against the set of outcomes of whole operations",
  "The interleaving is drawn and replayed exactly at the level of system calls on files (seccomp user notification); overlaps within memory are the operating system's. Removals and overwriting are not claimed to be atomic.")

p("C52", "A read shows what is stored at that time",
  "Whatever another program did to the files since an earlier read - changed bytes, exchanged, added or removed records, replaced, emptied or removed a file - and through whichever opening of the home: the next read gives what reading the same files for the first time gives.",
  "inputs histories", "any BBS, any reading operation, any history of changes to its files between reads",
  "The tests read files that never change.",
  "pttbbs/pttbbs.go pttbbs/file.go pttbbs/board.go pttbbs/passwd.go pttbbs/fav.go bbs.go",
  [("each read opens and reads the file", "pttbbs/pttbbs.go, pttbbs/file.go:OpenFileHeaderFile, pttbbs/board.go:OpenBoardHeaderFile, pttbbs/passwd.go:OpenUserecFile, bbs.go")],
  "property-based testing: generated histories of file states, each read differentially against a first read of the same files elsewhere",
  "The lists the web server reads at its start are its own matter and not part of this.")

p("C53", "Operations at the same time do not race in memory",
  "Operations through one opening or several, looking at and encoding the same record, conversions of texts, password checks, reading shared memory and requests to the web server may go on in any number of threads at the same time: no two of them access the same memory without order, at least one writing, and each gives the answer it gives alone.",
  "schedules", "any operations, records and texts, any number of threads, any schedule",
  "The tests use one thread and no race detector.",
  "bbs.go pttbbs/pttbbs.go pttbbs/board.go pttbbs/file.go pttbbs/passwd.go crypt/fcrypt.go string.go serverlet/main.go",
  [("no package state is written after the start", "bbs.go, pttbbs, crypt, string.go"), ("records are not written by what reads them", "pttbbs/board.go, pttbbs/file.go, pttbbs/passwd.go"), ("lists are read by the handlers only", "serverlet/main.go")],
  "property-based testing under the race detector: generated operations in several threads, each answer against the one given alone",
  "The detector orders accesses by happens-before, so a race shows without its harm; what a schedule synchronises by accident can hide, so each case has several rounds. The server is built with the detector, too.")

p("C54", "The web server answers every request, and none changes what others get",
  "Any well-formed request - any method, path, query, headers and body - gets a complete HTTP answer, whatever was sent before and by however many clients, garbage included. Requests never end the server, never change a file of the BBS, and never change the answers to later requests.",
  "inputs histories", "any requests in any number, order and overlap, on any accounts and boards",
  "One test parses three paths; no request is ever sent.",
  "serverlet/main.go serverlet/route_users.go serverlet/route_token.go serverlet/route_boards.go serverlet/route_classes.go serverlet/permissions.go",
  [("path and header parsing", "serverlet/route_users.go:parseUserPath, serverlet/route_token.go:getTokenFromRequest"), ("handlers read the lists only", "serverlet/route_boards.go:getBoards, serverlet/route_token.go:findUserecByID")],
  "structured fuzzing of the running server: generated requests, an answer to each, and unchanged answers to known requests",
  "End to end over the loopback network; what the answers to odd requests say is not part of it.")

p("C55", "An operation changes nothing but what it is about",
  "Reading leaves every file of the BBS as it was: content, mode, identity and time. A writing operation changes its one file, which stays the same file - links still lead to it, its mode stays -, or creates or removes that one, and nothing else: no other file or directory appears, changes or vanishes anywhere, in the home, the working directory or the temporary one, also when the operation fails or one of its system calls does. Files of similar names are nobody's backup or lock. The process keeps its working directory, umask and environment.",
  "inputs histories fault_sequences", "any BBS with any modes, links, missing or additional files, any history of operations, any failing system call",
  "The tests look at the file they expect to change, if at any.",
  "pttbbs/board.go pttbbs/file.go pttbbs/draft.go pttbbs/pttbbs.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go bbs.go",
  [("files are opened for reading only, or written in place", "pttbbs/board.go, pttbbs/file.go, pttbbs/draft.go"), ("one exclusive creation", "pttbbs/pttbbs_write_article_connector.go:CreateBoardArticleFilename, NewArticleRecordWithMap")],
  "property-based testing of operation histories with injected faults: an invariant over the whole file tree after each step (frame condition)",
  "All times are set back before each step, so that a file which came and went shows in its directory's time.")

p("C56", "Any bytes can be read, at a cost in proportion to their number",
  "Whatever is in the files - random or uniform bytes, parts of other files, records cut, repeated or mixed with anything - each reading operation ends with an answer or an error, and what it returns can be looked at; it never crashes, hangs or takes memory out of proportion. Every decoder of a buffer takes any bytes of any length: a part of a record is refused with an error, never a crash, what follows a record does not matter, and the buffer stays as it was. When a file or text is many times as long, reading it or writing to it takes about as many times the time and memory, not the square of it.",
  "inputs", "any bytes in any files and buffers, any operation; any content repeated to any length",
  "The tests decode sound samples of a few records.",
  "bbs.go user_comment_record.go ansi.go big5.go cstr.go pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/userinfo.go pttbbs/fav.go pttbbs/login_recent.go pttbbs/bad_logins.go formosabbs/file.go",
  [("lengths are checked before they are used", "pttbbs/fav.go, pttbbs/bad_logins.go, pttbbs/passwd.go:UnmarshalUserec, pttbbs/board.go:UnmarshalBoardHeader, pttbbs/file.go:NewFileHeaderWithByte, formosabbs/file.go"), ("one pass", "bbs.go, pttbbs/pttbbs.go, ansi.go")],
  "structured fuzzing of files and buffers with crash, memory and time oracles; metamorphic: the cost at 128 times the size against the cost at one",
  "Costs are measured as bytes allocated and time of the thread, with wide margins: squares show, constant factors do not. UnmarshalUserInfo returns no error and so has no way to refuse a part of a record.")

CLAIMED = set(sys.argv[1:]) if len(sys.argv) > 1 else None
NA = {}

def main():
    have = {d.upper() for d in os.listdir(os.path.join(ROOT, "harness", "checks"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["quant"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                            "observe_at": q["observe"] or ["the exported API of the packages and the files it writes"],
                            "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] not in have:
            na.append({"property": q["id"], "reason": NA.get(q["id"], "check not built yet")})
            continue
        checks.append({
            "property": q["id"],
            "quick_cmd": "bash check.sh %s" % q["id"],
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s" % q["id"],
            "evidence_file": "evidence/%s.json" % q["id"],
            "technique": q["technique"],
            "level": q["level"],
            "level_note": q["note"],
        })
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks use the exported API; C38 and C43 add one file to a package through 'go build -overlay'. The tier comes from VERIF_TIER. bash check.sh ID FILE replays a saved case."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
