"""Technique and assurance of each check, for MANIFEST.json"""
NOTES = {
    "C02": ("TLA+ reference file system (TLC): transition tour and generated histories replayed into the code, recorded traces validated by TLC",
            "Every transition of the reference over a small universe is sampled (quick) or replayed (thorough), plus generated histories with awkward names over pipeline configurations; after every call the whole tree of the real file system has to be the one of the specification. Bounded by depth, names and history length; trusts the driver's projection."),
    "C14": ("TLA+ model of an open file (TLC): transition tour and generated call sequences replayed into the code, recorded traces validated by TLC",
            "Every transition of a byte array with a cursor over short files is replayed, for all ways to open a file, plus generated sequences on two open files with larger units; bytes, counts, offsets, end-of-file, content and size after close have to be those of the specification. Bounded by content and sequence length."),
    "C01": ("TLA+ model of the tape (TLC: the visible tree is a function of the tape) and generated histories replayed into the code, recorded trees validated by TLC",
            "After every call of generated histories, the tree of a fresh index which is rebuilt from the tape by the real indexer has to be the visible tree, as has to be the tree after re-opening, over pipelines, record sizes and tape drives. Bounded by history length; trusts the driver's projection of trees."),
    "C04": ("TLA+ model of the tape (TLC) and generated histories replayed into the code; recorded members, index positions and fetched contents validated by TLC",
            "After every call, each row of the index has to point to the first block of the member which the specification's fold of the independently scanned tape designates for it, and what is fetched there has to be its content; the last indexed position has to be that of the last member. Bounded by history length; trusts an independent scan of the tape."),
    "C05": ("TLA+ model of the tape (TLC: append only) and generated histories replayed into the code; recorded tapes validated by TLC",
            "After every call, the old tape has to be a prefix of the new one, failed and reading calls must append nothing, every block has to be part of a well-formed member or zero, and Python's tarfile and GNU tar have to find the same members. Bounded by history length."),
    "C12": ("TLA+ reference file system and invariants of well-formed trees (TLC), generated histories with overlapping names replayed into the code, recorded trees validated by TLC",
            "After every call, the listed tree, the index and the rebuilt index have to be well-formed trees (unique names, existing parents, no orphans), and only the subtree of the call may differ. Bounded by depth, names and history length."),
    "C13": ("TLA+ reference file system (TLC), generated histories replayed into the code, recorded listings and lookups validated by TLC",
            "After every call, all listings of all directories with several limits, and looking up each listed name, have to agree with each other and with the index. Bounded by depth, names and history length."),
    "C06": ("TLA+ model of the tape (TLC) and generated histories replayed into the code; the index which the code rebuilds from cut off tapes is validated by TLC",
            "The tapes of generated histories are cut inside and between records (headers, PAX blocks, content, padding, trailers); what the real indexer rebuilds, and what fetching and restoring each entry returns, has to be the specification's fold of the complete records, up to the metadata of the torn record. Cuts are sampled per history; at tape drives they are whole records."),
    "C07": ("TLA+ model of the tape (TLC) and generated histories replayed into the code; replays over the indexes of prefixes and of the past are validated by TLC",
            "The tape of generated histories is indexed, without purging, over the index of each sampled prefix and over the live index after sampled calls, twice; rows and visible tree have to be those of a rebuild from scratch, which is the specification's fold. Bounded by history length."),
    "C16": ("TLA+ reference file system and model of the tape (TLC); file systems which are opened over cut off or intact tapes with missing, stale or current indexes are validated by TLC",
            "Opening must not change the tape, append nothing if the fold of the tape has a root, and show what a rebuild shows; calls after opening have to be calls of the reference, read back and survive a rebuild. Cuts, indexes and calls are sampled per history."),
    "C15": ("TLA+ reference file system and its read-only variant (TLC): every call in every small state, generated histories and calls on open files replayed on read-only instances, recorded traces validated by TLC",
            "After opening and after every call the tape's bytes and the index's rows have to be what they were (an index may only be built if it is missing), mutating calls have to be refused with a permission error, and the tree and what is read has to be what a writable instance over a copy shows. Bounded by depth, names and history length."),
    "C10": ("TLA+ model of the drive and the locks around it (TLC: no call waits forever, all give the drive back), calls with injected faults replayed on the code, recorded drive events validated by TLC",
            "For every kind of call, successful and rejected, each step at a seam (drive, tape positioning, index, data source, write cache) is made to fail once or persistently, or writes to be cut off; the call has to return without panic, what it did to the drive has to leave it free, and further calls have to succeed. Fault points are sampled per call (quick); two faults at once are not covered."),
    "C11": ("TLA+ specification of clients which share a file system, and model of the drive's locks (TLC); concurrent programs which TLC generates run on the code, built with the race detector and without, and recorded invocations and returns are validated by TLC: some order of the calls within their real-time order has to explain all results and the final tree",
            "Linearizability is decided by TLC for each recorded history with just-in-time linearization; interleavings are sampled by injected delays at the seams. A data race, crash or hang while clients run is a violation, too. Histories for which more than 4000 configurations are possible are given up (and counted) except for rebuild and reopening."),
    "C17": ("TLA+ specification of names and of what an archive means (TLC: each path is one row however it is spelled); archives and histories which TLC generates are written by archive/tar, opened through the documented composition, and recorded trees, spellings and calls are validated by TLC",
            "All root styles (./, /, named, nested, absolute and dotted) times ustar, PAX (with global records) and GNU archives; the first view has to be the fold of the members, calls go on from there as calls of the reference, and indexes which are rebuilt by the indexer or by opening have to show the same tree. Trees, names and calls are sampled. Symbolic and hard links in foreign archives are a known finding."),
    "C03": ("TLA+ model of the two-pass writing pipeline (TLC: what is announced is written, decoding undoes encoding), whose configurations TLC enumerates; contents are written and read in all ways through the code and the recorded readings validated by TLC",
            "All 8x3x3x3 pipelines, each with sampled record sizes, drive kinds and caches (thorough: all combinations which the specification enumerates), with contents of sampled sizes (0, 1, around blocks, records and buffers, megabytes) and distributions, written by creating, truncating, replacing, archiving and updating in pieces, and read through the file system, by offset, by tape position, by restoring, after a rebuild and after reopening; sizes in stat, rows and listings. Contents are compared by SHA-256."),
    "C18": ("TLA+ specification of key pairs, passwords and what is made with them as terms (TLC: only the password yields an identity, only the pair opens); call sequences which TLC generates are executed with generated keys and their recorded results validated by TLC",
            "All formats, by string, stream and header, with passwords from families of similar ones (empty, multi-byte, long, arbitrary bytes; prefixes, case, normalisation, white space), identities parsed with right and wrong passwords, and pairs which are not each other's. Passwords and messages are sampled; private halves which are slow to parse, less. Passwords which differ by zero bytes at their end only are a known finding of scrypt."),
    "C08": ("TLA+ specification of signed records as terms and of what somebody else may do to a tape (TLC: only the owner's headers and contents are accepted); the changes which TLC enumerates are made to tapes of generated histories, and what the code accepts and restores of them is validated by TLC",
            "Changes: each combination of embedded header (edited, of another record, none), signature (kept, swapped, of a content, by a second key, none, malformed), content (kept, swapped, cut off, forged) and place (replaced, inserted, appended), sampled per tape; single bytes, all of them on small tapes. Accepted are what indexing, querying, fetching, restoring, opening and going on with an index yield. A content of the form of a header is a known finding."),
    "C09": ("TLA+ specification of wrapped records as terms and of what is learned of them with which keys (TLC: nothing but sizes without the owner's); generated histories replayed into the code, and the recorded projection of each member of the tape, which secrets are found in it, and what strangers can do, validated by TLC",
            "After every call (also ones which are cut off) the new part of the tape is searched for each name, link target, owner, time, content unit, signature and metadata key of the history in raw, JSON, hexadecimal and base64 form at each alignment, also after decoding and decompressing; each member's outer header may only have a size and the wrapper, and header and content have to be encrypted for exactly the owner. Rebuilding, querying, fetching, restoring, reading and opening with another key, none, or one of another kind has to fail. Histories are sampled."),
}
