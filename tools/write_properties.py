#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

PS = "python/virgo/mpi/parallel_sort.py"
PH = "python/virgo/mpi/parallel_hdf5.py"
UT = "python/virgo/mpi/util.py"
GA = "python/virgo/mpi/gather_array.py"
MT = "python/virgo/mpi/merger_tree.py"

prop("C01", "Parallel sort leaves a sorted permutation in place, with a correct index",
 "After sorting an array distributed over any number of ranks (some of which may hold nothing), the concatenation over ranks is the stably sorted concatenation of the input, and every rank still holds as many elements as before. "
 "If the sorting index is requested, taking the original distributed array at the returned global indexes gives the sorted array, with equal values kept in their original order. "
 "This holds for every sortable native data type, any amount of duplication and any division of elements between ranks.",
 ["inputs", "configurations"],
 "every number of ranks, every division of elements over ranks including empty ranks, every pattern of equal and unequal values, every supported dtype",
 "the tests draw a few random arrays at 1-8 ranks; the splitting of runs of equal values at rank boundaries depends on coincidences between run position, rank sizes and instance counts that random draws hit rarely",
 [PS], [("iterative weighted-median search for splitting values", PS+": find_splitting_points"), ("division of instances of a splitting value between ranks", PS+": parallel_sort")],
 observe=["array contents on each rank after the call", "returned index"])

prop("C02", "Parallel match finds an equal element for every value that has one",
 "For every element of the first of two distributed arrays of native numeric type the result is the global position of an element of the second distributed array with the same value, and it is -1 exactly when the second array holds no such value; the result is divided over ranks like the first array. "
 "This is so for any duplication in either array, any ranks that hold no elements of one or both, and also when the caller declares the second array already sorted. "
 "Neither input is modified.",
 ["inputs", "configurations"],
 "every pair of distributed arrays, every division over ranks including empty ranks, duplicates in both, presorted second array",
 "the tests use random arrays; loss of a match depends on how ranges of values on ranks abut and on which ranks are empty",
 [PS], [("routing by minimum and maximum value on each rank", PS+": parallel_match")],
 observe=["returned index", "the input arrays after the call"])

prop("C03", "Parallel unique returns each distinct value once, with its exact count",
 "The concatenation over ranks of the unique values of a distributed array is the sorted list of its distinct values, each exactly once, and the counts, if requested, are the numbers of times they occur over all ranks. "
 "With repartitioning requested the result is divided as evenly as possible over the ranks, lower ranks holding the extra elements. "
 "The input is unchanged, and stating that the input is already sorted gives the same result.",
 ["inputs", "configurations"],
 "every distributed array, division over ranks including empty ranks, and option combination",
 "the tests use random arrays; merging counts across three or more ranks sharing one value, next to empty ranks, needs particular layouts",
 [PS], [("count accumulation over following ranks", PS+": parallel_unique")],
 observe=["returned values and counts on each rank"])

prop("C04", "Repartition and fetch move exactly the right rows between ranks",
 "Repartitioning a distributed array leaves the global sequence of rows unchanged while each rank holds the requested number of rows. "
 "Fetching by global index returns on each rank exactly the rows named by its index list, in that order and with any repetition, into a new array or into one supplied by the caller. "
 "Both hold for one- and multi-dimensional arrays and for every division of rows over ranks, including empty ranks and empty requests.",
 ["inputs", "configurations"],
 "every source division, target division or index list, array dimensionality and dtype",
 "the tests cover random divisions; off-by-one overlaps of source and target ranges and empty ranks between them are a combinatorial set",
 [PS], [("overlap of source and destination ranges", PS+": repartition"), ("request routing by first index on rank", PS+": fetch_elements")],
 observe=["returned arrays"])

prop("C05", "Chunked all-to-all and pairwise exchange deliver every element once",
 "An exchange with any matrix of send counts delivers to each rank, at the offsets it gave, exactly the elements addressed to it, and writes nothing else into the receive buffer. "
 "This is independent of the communication method chosen and of the number of chunks into which long messages have to be split, on both sides, and no single message of 2 GB or more is ever sent.",
 ["inputs", "configurations", "schedules"],
 "every matrix of counts, both methods, every chunk size relative to the message sizes, every delivery order",
 "splitting only happens for messages over 100 MB, which no test sends, and the non-blocking method is not the default",
 [PS], [("chunk loops", PS+": my_alltoallv"), ("chunk loop", PS+": sendrecv")],
 observe=["receive buffers"])

prop("C06", "Distributed bincount and element updates equal the serial result",
 "Applying updates by global index to a distributed array gives the same array as applying all the updates of all ranks to the concatenated array in one place, for a numpy operator or an MPI operator, and for rows of any shape. "
 "The distributed bincount equals the serial bincount of the concatenated input, with weights, minimum length or a caller-supplied distributed result, and its default output is divided as evenly as possible over the ranks.",
 ["inputs", "configurations"],
 "every index list with repeats, division of target and updates over ranks including empty ranks, operator, and option combination",
 "the tests use random data; updates that straddle empty ranks and repeated indexes from several ranks need specific layouts",
 [PS], [("routing of updates to owning rank", PS+": reduce_elements"), ("local combination before the global update", PS+": parallel_bincount")],
 observe=["the target array on each rank"])

prop("C07", "Parallel routines never deadlock or mismatch communication under any schedule",
 "For every input, all ranks calling a parallel routine of the package return from it under every scheduling of ranks and whether or not the MPI library buffers messages: no deadlock, no unreceived message, no collective on which the ranks disagree about operation, root or element count. "
 "The results do not depend on the schedule, and no communicator or datatype made inside a routine is used after it was freed.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of ranks, every choice of eager or synchronous message delivery, early or late exit from rooted collectives, for every small input of every routine",
 "the tests run whatever schedule the machine happens to produce, with a library that buffers all small messages, so code that relies on buffering or on a rank being slow passes",
 [PS, UT, GA, MT], [("hypercube pairing", PS+": my_alltoallv"), ("communicator of ranks with data", PS+": parallel_sort, parallel_unique"), ("loop until all splitting points are found", PS+": find_splitting_points")],
 observe=["MPI calls of each rank", "results"])

prop("C08", "Group membership from lengths and offsets matches the serial definition",
 "Given distributed arrays of group lengths and offsets into a distributed particle array, every particle inside a group's range receives that group's global index, and every other particle -1. "
 "If the rank within the group is requested it is the distance from the start of the group, and -1 outside groups. "
 "This holds however the groups and the particles are divided over ranks, for empty groups, gaps between groups and groups spanning several ranks, and for unsigned inputs.",
 ["inputs", "configurations"],
 "every set of sorted non-overlapping groups, every division of groups and of particles over ranks",
 "the tests use a few random layouts; failures need a group boundary to coincide with a rank boundary, or an empty rank in the middle of a group",
 [UT], [("range of ranks for each group", UT+": group_index_from_length_and_offset")],
 observe=["returned arrays"])

prop("C09", "Array gathering and empty-rank completion agree on all ranks",
 "Gathering a distributed array along any axis gives the concatenation of the ranks' parts in rank order, on the requested root only or on all ranks. "
 "Ranks that have no array receive an empty array with the type and trailing shape found on the other ranks, all ranks receive nothing only if no rank has an array, and existing arrays are returned unchanged. "
 "Command line arguments parsed on several ranks give every rank the values parsed on rank 0, and an error in them ends every rank.",
 ["inputs", "configurations"],
 "every shape up to 3 dimensions, axis, root, combination of ranks without data, argument list",
 "the tests do not call the gathering routines or the argument parser at all",
 [GA, UT], [("counts and displacements", GA+": gather_array"), ("dtype and shape search", UT+": broadcast_dtype_and_dims"), ("broadcast of rank 0's result", UT+": MPIArgumentParser.parse_args")],
 observe=["returned arrays", "parsed arguments and process exit"])

prop("C10", "Halo matching picks the halo receiving most particles, lowest number on ties",
 "For every halo of the first catalogue the match is the halo of the second catalogue that contains the largest number of its particles that are in halos in both, the lowest numbered one in a tie, or -1 if there is none; the output is divided over ranks as requested. "
 "The consistency flag is 1 exactly for those halos whose match points back at them. "
 "Both are independent of how particles and halos are divided over ranks.",
 ["inputs", "configurations"],
 "every small assignment of particles to halos at both times, particle order, and division of particles and halos over ranks",
 "no existing test covers halo matching",
 [MT], [("unique pairs and counts", MT+": match_halos"), ("tie rule", MT+": match_halos"), ("fetch of the reverse match", MT+": consistent_match")],
 observe=["returned arrays"])

prop("C11", "Reading N files on M ranks yields the concatenation of the files, once, in order",
 "Reading datasets from a set of files on any number of ranks gives, concatenated over ranks, exactly the concatenation of the files' contents in file order, in native byte order, with missing groups, missing datasets and empty files skipped, and with the same type and trailing shape on all ranks. "
 "If requested, each element's file number (as numbered by the caller), the number of elements per file, and the dataset attributes are those of the file it came from. "
 "The set of files is the one described by the list, the index list or the count stored in the first file, and files that disagree on a dataset's type lead to an error on every rank.",
 ["inputs", "configurations"],
 "every number of files and ranks, sizes including zero, subset of files lacking a dataset, dataset shape and dtype, read buffer size",
 "the tests use fixed numbers of files and random sizes; several files per rank, several ranks per file, empty or missing datasets and buffer boundaries interact",
 [PH], [("division of files over ranks or ranks over files", PH+": assign_files, MultiFile.__init__"), ("chunked collective read", PH+": collective_read"), ("per-file reads", PH+": MultiFile._read_independent, _read_collective")],
 observe=["arrays returned on each rank"])

prop("C12", "Collective and multi-file writes store exactly what the ranks hold, in order",
 "Writing a distributed array to one file collectively stores the concatenation of the ranks' parts in rank order, whatever the sizes and however many buffers are needed, and inconsistent shapes or types are reported on every rank concerned. "
 "Writing with the layout of a set of files that was read stores in each output file exactly the elements, type, group and attributes that correspond to it, in new files or added to existing ones without disturbing what they contain. "
 "Reading the output back gives the same distributed data.",
 ["inputs", "configurations"],
 "every division of rows over ranks and files including zero, buffer size, dataset rank and dtype, number of files and ranks, mode",
 "the tests write random sizes with the default buffer; boundaries of the buffer, ranks with nothing to write and several files per rank are not enumerated",
 [PH], [("write loop with empty selections", PH+": collective_write"), ("offset of each file in the local array", PH+": MultiFile._write_independent, _write_collective")],
 observe=["the files written"])

prop("C13", "Serial match returns a correct position or -1 for every element",
 "For each element of the first array the serial match returns the position of an equal element of the second array, or -1 if there is none, for arrays of any length including empty, in any order and with duplicates. "
 "Supplying a precomputed sorting index, or stating that the second array is sorted, gives an equally valid result.",
 ["inputs"],
 "every pair of small arrays and option combination",
 "no existing test calls it",
 ["python/virgo/util/match.py"], [("binary search through a sorting index", "python/virgo/util/match.py: match")],
 observe=["returned array"])

prop("C14", "Range utilities distribute values and sum ranges exactly",
 "Assigning values to sorted ranges that do not overlap gives every element of each range that range's value and leaves other elements as they were. "
 "Summing over such ranges gives for each range the sum, the weighted sum or the mean of the elements it contains, computed in the requested type, and zero for ranges of zero length. "
 "This holds for any number of ranges, for zero-length ranges and gaps anywhere, and for arrays of any dimensionality. Two or more ranges which overlap or are out of order are reported as an error, and the array is then unchanged.",
 ["inputs"],
 "every set of small ranges inside small arrays",
 "no existing test calls them",
 ["python/virgo/util/ranges.py"], [("cumulative offsets", "python/virgo/util/ranges.py")],
 observe=["returned arrays"])

prop("C15", "Peano-Hilbert keys are a bijection along a continuous curve",
 "For every number of bits the key is a one-to-one map from cells of the cubic grid onto the integers from zero to the number of cells minus one, the inverse recovers the cell, consecutive keys belong to cells that share a face, and refining the grid keeps each cell's sub-cells contiguous. "
 "The keys are those of the Gadget code, and converting positions to keys uses the cell that contains the position; results do not depend on how many are converted in one call.",
 ["inputs"],
 "every cell of every grid up to the bound on bits, extreme cells above it, and every batch length around the internal block size",
 "no existing test calls it",
 ["python/virgo/util/peano.py"], [("rotation tables", "python/virgo/util/peano.py"), ("block loop", "python/virgo/util/peano.py")],
 observe=["returned keys and coordinates"])

RB = "python/virgo/util/read_binary.py"
prop("C16", "Binary files viewed as HDF5 files always show the current data at the right place",
 "Whatever sequence of datasets and attributes a reader declares and skips, each of them occupies the bytes that follow the previous one, groups and paths lead to it as in HDF5, and any slice of it returns the file's values with the declared type and shape. "
 "Results are the same however many files are open, in whatever order they are accessed, and whether or not some were closed to make room. "
 "Reading what would lie past the end of the file is an error, the number of files open at once stays within the limit, and the report that all bytes are used is true exactly when the declarations cover the file.",
 ["histories", "inputs"],
 "every sequence of declarations up to a depth, every slice, every order of access to more files than may be open",
 "no existing test touches the binary reader",
 [RB], [("declared blocks and offsets", RB+": BinaryFile"), ("limited cache of mapped files", RB+": BinaryFile")],
 observe=["values read", "set of open files"])

prop("C17", "Byte order, Fortran records and conversions preserve binary file contents",
 "Data read in either byte order have the values that were written, and are in native order. "
 "For record-structured files the reader positions datasets inside the records, detects the byte order from the record markers, and rejects inconsistent markers. "
 "Converting a described binary file to HDF5, or back to a binary file, reproduces every dataset and attribute exactly, and a file's hash depends only on its contents.",
 ["inputs", "configurations"],
 "every dtype, byte order, record layout and dataset shape within the bound",
 "no existing test touches the binary reader",
 [RB], [("byte swapping", RB), ("record markers", RB), ("conversion routines", RB+": write_hdf5, write_binary")],
 observe=["arrays read", "files written"])

prop("C18", "Gadget binary snapshots are read correctly in every format variant",
 "A type 1 Gadget snapshot of any combination of byte order, 4 or 8 byte positions and velocities and IDs, particle types present, per-type or table masses, and optional gas and extra blocks is presented with the same groups, datasets, attributes and values as its contents. "
 "The detection of precision and byte order is right for every such file, and a file cut short at any byte never yields wrong values: a cut inside a record, or before the positions, velocities and IDs are complete, is reported as an error. A record whose length markers do not fit its contents is an error too.",
 ["inputs", "configurations", "crash_points"],
 "every combination of format options and small particle counts, every truncation point",
 "no existing test reads a Gadget snapshot",
 ["python/virgo/formats/gadget_snapshot.py", RB], [("precision and byte order detection", "python/virgo/formats/gadget_snapshot.py"), ("block offsets", "python/virgo/formats/gadget_snapshot.py")],
 observe=["datasets and attributes of the opened snapshot"])

prop("C19", "Halo and tree catalogue readers decode every supported binary layout",
 "For each supported halo catalogue, subhalo, particle ID and merger tree file format, every field of every object is returned with the value stored in the file, for every supported byte order, ID size and optional block, and for any number of objects including none. "
 "Wherever a reader offers a consistency check, it accepts every well-formed file and rejects any file in which a count, offset, index, ID or value that it examines is out of range or inconsistent; for L-Gadget3 and P-Gadget3 catalogues it also rejects any file which is not as long as the declared options imply. "
 "No value is ever returned from beyond the end of a file cut short.",
 ["inputs", "configurations"],
 "every combination of format options and small object counts, written by an independent encoder",
 "no existing test reads any of these formats",
 ["python/virgo/formats/subfind_lgadget2.py", "python/virgo/formats/subfind_lgadget3.py", "python/virgo/formats/subfind_pgadget3.py", "python/virgo/formats/mpa_trees.py", "python/virgo/formats/rockstar.py", "python/virgo/formats/velociraptor.py", "python/virgo/sims/mxxl.py", "python/virgo/sims/millennium.py", "python/virgo/sims/millennium2.py", "python/virgo/sims/coco.py"],
 [("sequence of declared blocks per format", "python/virgo/formats/*.py"), ("sanity_check", "python/virgo/formats/subfind_*.py")],
 observe=["datasets and attributes of the opened file"])

prop("C20", "Reading a group's particles from a file-split, group-ordered snapshot is exact",
 "For snapshots whose particles are stored in group order over several files, reading the particles of a group, a subhalo or a range gives exactly those particles, in order, of every requested type and property, wherever the group lies relative to file boundaries. "
 "Groups and files with no particles of some type are handled like any other, and group catalogues split over files are returned as the concatenation of the files.",
 ["inputs", "configurations"],
 "every division of particles into groups, subhalos and files within the bound",
 "no existing test reads a group ordered snapshot",
 ["python/virgo/formats/subfind_gadget4.py", "python/virgo/formats/subfind_pgadget3.py"],
 [("scan over files overlapping a range", "python/virgo/formats/subfind_gadget4.py: GroupOrderedSnapshot"), ("scan over files overlapping a range", "python/virgo/formats/subfind_pgadget3.py: GroupOrderedSnapshot")],
 observe=["arrays returned"])

prop("C21", "Region reads through the snapshot hash table return all particles in the region",
 "Reading a region of a Peano-Hilbert sorted snapshot returns every particle whose cell overlaps the region, wherever it is stored, each exactly once and with its own position, velocity and ID, including across the periodic boundary and for regions in which there are no particles. "
 "Reading named cells returns exactly the particles of those cells.",
 ["inputs", "configurations"],
 "every cell set and small region in a small grid, every division of the cells over files, both byte orders",
 "no existing test reads such a snapshot",
 ["python/virgo/formats/subfind_lgadget2.py"], [("hash table lookup", "python/virgo/formats/subfind_lgadget2.py: Snapshot"), ("cell selection", "python/virgo/formats/subfind_lgadget2.py: Snapshot.read_region")],
 observe=["arrays returned"])

prop("C22", "SWIFT and SOAP quantities carry the units and scale-factor exponents stored",
 "For every dataset without electric current units read from a SWIFT snapshot or SOAP catalogue, the values are those stored, the attached unit has the stored dimensions, its value in CGS equals the conversion factor stored with the dataset, and it depends on the scale factor and the Hubble parameter with the stored exponents. "
 "In swiftsimio mode the array is comoving exactly if it has the stored dependence on the scale factor and its physical value in CGS is the stored value times the stored factor; datasets that are neither physical nor comoving lengths, or depend on the Hubble parameter, are refused rather than misread. "
 "The named units of the file (snapshot and code units, a, h, parsec, solar mass, G) have the values stored in its metadata.",
 ["inputs", "configurations"],
 "every combination of unit exponents, scale factor and Hubble exponents, scale factor and unit system within the bound, with conversion factors which do or do not agree with the exponents",
 "no existing test covers units",
 ["python/virgo/formats/swift.py", "python/virgo/formats/soap.py"], [("unit registry", "python/virgo/formats/swift.py: soap_unit_registry_from_snapshot"), ("translation of attributes to units", "python/virgo/formats/swift.py: soap_units_from_attributes, swiftsimio_units_from_attributes")],
 observe=["units and values of the arrays returned"])

prop("C23", "Merger tree indexing is depth first and main branches are maximal",
 "For every forest, the depth first index numbers each tree contiguously with every halo preceding all its progenitors and following its descendant, visiting the main progenitor's branch first; the last-progenitor index delimits exactly the progenitors of each halo and the main-branch index the main branch. "
 "The main progenitor is the progenitor with the largest stated mass criterion, and tree and branch masses are the sums over exactly the halos defined.",
 ["inputs"],
 "every forest of up to n halos with every order of storage and mass ordering",
 "no existing test covers tree indexing",
 ["python/virgo/database/index_trees.py"], [("iteration from late to early snapshots", "python/virgo/database/index_trees.py")],
 observe=["returned index arrays"])

prop("C24", "Database table export writes every tree row with faithful values",
 "Exporting merger trees to database tables writes one row per halo and one column per property, in the declared order, with values that read back as the originals, and a table definition with the matching column types. "
 "Trees read from several files are concatenated with identifiers that stay unique and consistent.",
 ["inputs"],
 "every small set of tree files and column types",
 "no existing test covers the database export",
 ["python/virgo/database/make_dtrees_table.py"], [("type mapping", "python/virgo/database/make_dtrees_table.py"), ("native file writer", "python/virgo/database/make_dtrees_table.py")],
 observe=["files written"])

prop("C25", "Multi-file naming and serial concatenation find the right files and data",
 "File names for simulation outputs are those of the requested type, snapshot, redshift and file number, independently of earlier requests. "
 "Partial formatting replaces exactly the fields that were given and leaves the others, with their format, for later. "
 "Reading a dataset from several files serially gives their concatenation in file order.",
 ["inputs", "histories"],
 "every sequence of requests up to a depth, every subset of fields given, every number and size of files within the bound",
 "no existing test covers these helpers",
 ["python/virgo/sims/eagle.py", "python/virgo/util/partial_formatter.py", "python/virgo/util/read_multi.py"],
 [("file name search", "python/virgo/sims/eagle.py: eagle_filename"), ("formatter", "python/virgo/util/partial_formatter.py"), ("concatenation", "python/virgo/util/read_multi.py")],
 observe=["returned names, strings and arrays"])

FW = "fortran/hdf5_wrapper/src"
prop("C26", "The Fortran HDF5 wrapper stores and returns every type and rank unchanged",
 "Every scalar and array of up to seven dimensions of integer, real or character type that is written with the Fortran wrapper, as a dataset or as an attribute, is stored in the file with the same shape, type class and values, and reading it back with the wrapper returns the same values; attributes can also be read into another numeric kind. "
 "Reading or writing a section given by start and count touches exactly that section, and compression and chunking do not change the data.",
 ["inputs", "configurations"],
 "every type, rank, small shape, section and storage option",
 "the Fortran tests write files but compare nothing, and cover only some types and ranks",
 [FW+"/"+f for f in ("hdf5_wrapper.F90","write_dataset.inc","write_dataset_preprocessor.inc","write_dataset_c.c","read_dataset.inc","read_dataset_preprocessor.inc","read_dataset_c.c","write_attribute_preprocessor.inc","write_attribute_c.c","read_attribute_preprocessor.inc","read_attribute_c.c")],
 [("generated routine per type and rank", FW)],
 observe=["arrays read", "file contents read independently"])

prop("C27", "Histories of Fortran wrapper operations see exactly what was written last",
 "After any sequence of opening, creating, writing, overwriting, extending, reading, listing and closing over several files and datasets, each read returns what the latest writes put there, and the files contain exactly the groups, datasets and attributes written. "
 "Handles of one file never affect another, files opened read-only are never changed, and queries of existence, type and dimensions reflect the current state.",
 ["histories"],
 "every sequence of operations up to a depth over two files and a few dataset names",
 "the Fortran tests run one fixed sequence each and compare nothing",
 [FW+"/hdf5_wrapper.F90",FW+"/read_dataset_c.c",FW+"/write_dataset_c.c"], [("table of open files", FW), ("dataset kept open between reads", FW)],
 state=[("open dataset cache", "the last dataset read is kept open to speed up partial reads", FW)],
 observe=["arrays read", "file contents read independently"])

prop("C28", "File presence checks report exactly the incomplete outputs of a run",
 "For every Eagle or P-Gadget3 run, the file presence checks report an output as complete exactly if its first file can be read and every file which that file says there should be is present in the directory of the output. "
 "The numbers of files present and expected and the summary per type of output are those of the files on disk, whatever other files and directories there are and whatever the name of the run's directory.",
 ["inputs", "faults"],
 "every output type and number of files, every subset of files missing, and other faults (unreadable first file, truncated files, missing or duplicated directory), in pairs",
 "no existing test runs them",
 ["consistency_check/eagle/check_eagle_file_presence.py","consistency_check/p-gadget3/check_pgadget3_file_presence.py"], [("check of one output", "consistency_check: check_dir"), ("file names", "consistency_check: eagle_filename, pgadget3_filename")],
 observe=["report printed by the program"])

prop("C29", "Parallel hashing covers every file once and an interrupted run can be resumed",
 "For every directory tree, number of tasks and schedule, hash_dirs_mpi.py processes each selected file exactly once, ends, and writes the right hash of each (or UNREADABLE) in sorted order to the output file, to the file of each directory and, for files that could be read, once to the database; its own output files are not hashed. "
 "If it is interrupted at any point, the database holds only correct hashes and lacks at most those of the directories the tasks were working on; resuming takes these hashes from the database, computes the others and gives the same complete outputs. "
 "Resuming from a database without hashes for this base directory and type stops with an error and writes no output.",
 ["inputs", "schedules", "crash points"],
 "every tree up to a number of directories, every schedule up to a number of preemptions, every crash at a scheduling point or database operation",
 "no existing test runs it, and tests cannot choose schedules or crash points",
 ["consistency_check/hash/hash_dirs_mpi.py"], [("assignment of directories", "hash_dirs_mpi.py: DirectoryList.request_task, process_requests"), ("database", "hash_dirs_mpi.py: store_hashes"), ("outputs", "hash_dirs_mpi.py: hash_dir, recursive_hash")],
 state=[("hash database", "hashes of finished directories, committed as they are reported", "hash_dirs_mpi.py: DirectoryList")],
 observe=["output files", "rows in the database", "report of the tasks"])

prop("C30", "An error on any rank ends the whole parallel job and is reported",
 "A function wrapped by the mpi_errchk decorator is called with the caller's arguments and returns its own result. "
 "If it raises an exception or is interrupted on any rank, before or after communication and under any schedule, the whole job is ended with a nonzero exit status, so that ranks waiting for the failed one do not hang; the exception, its traceback and the rank are reported. "
 "The job ends even if reporting fails.",
 ["schedules", "faults"],
 "every set of failing ranks, point of failure, kind of exception, state of the output streams and schedule",
 "no existing test uses it; whether other ranks are blocked when one fails depends on the schedule",
 ["python/virgo/mpi/errchk.py"], [("decorator", "python/virgo/mpi/errchk.py: mpi_errchk")],
 observe=["exit status of the job", "returned value", "text printed"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
