#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json, subprocess, re, sys

F = "orc/file.go orc/stripe.go orc/column/*.go orc/stream/*.go orc/encoding/*.go".split()
P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files, mech=mech, note=note, state=state or [], observe=observe or []))

SAMPLED = "The tests sample a handful of fixed files and constant values; "

prop("C01", "What is written to a file is read back unchanged",
 "Every row written to a file, in any number of write calls and with any writer options (compression kind and level, chunk size, stripe size, row index and stride), comes back from a reader of that file: the same values and nulls, in the same order, and no others. This holds for every writable column type, bare or inside (nested) structs.",
 "inputs configurations", "all values and null patterns of a column of each type (small value domains, arbitrary bytes for byte, boolean, float, string), all options of the table, all splits of the rows into write calls",
 SAMPLED + "they write few kinds, never small chunks or several stripes together with nulls, and compare little more than counts.",
 ["orc/writer.go", "orc/reader.go", "orc/stripe.go", "orc/column", "orc/stream", "orc/encoding"],
 [("stripe writer collects column streams and flushes them", "orc/writer.go stripeWriter"), ("stripe reader and column readers decode them", "orc/reader.go stripeReader")],
 "file writer and reader executed end to end on symbolic rows: 3 rows, 15 kinds, 7 option sets")

prop("C02", "Batch sizes and stripe boundaries are invisible",
 "Reading a file in batches of any size, or changing the batch capacity between reads, delivers the same sequence of rows whatever the stripe sizes and the batches of the writer were. No batch exceeds its capacity, no batch before the last row is empty, and the end is reported exactly with the last row and at every later read.",
 "inputs configurations histories", "every batch size from 1 to rows+1, every write batch size, stripes of every size, every sequence of batch sizes",
 SAMPLED + "the batch size is nearly always larger than the file or the stripe.",
 ["orc/reader.go", "orc/writer.go"],
 [("batch reader continues over stripes", "orc/reader.go batchReader.Next"), ("stripe size check", "orc/writer.go Write")],
 "symbolic batch sizes per read call, files of up to 6 rows in 1 to 6 stripes")

prop("C03", "Seek to a row reads from exactly that row",
 "After a seek to an existing row number, the rows read are those from that row on; a seek to a row that does not exist is an error and reading can go on. This holds at any point of any history of reads and seeks, with or without a row index, for every column type and compression.",
 "inputs configurations histories", "every history of up to 2 (thorough 3) read and seek operations and every target row, then reading to the end",
 SAMPLED + "seek is exercised for a few fixed target rows of a few example files.",
 ["orc/reader.go", "orc/stripe.go", "orc/column", "orc/stream"],
 [("stripe and row group lookup", "orc/reader.go Seek"), ("column seek by index positions and skipping", "orc/column")],
 "end-to-end on symbolic histories and rows: 4 rows, 15 kinds, 5 option sets")

prop("C04", "Column readers read and seek any valid column data",
 "A column reader returns the rows that the column's streams encode, for every column type including list, map and dictionary strings, with and without nulls. Seeking it to any row of the stripe, with or without the row index, continues with that row.",
 "inputs histories", "every content of the streams within the domain, every read/seek history of bounded length",
 SAMPLED + "list, map and dictionary readers are only run over example files from start to end.",
 ["orc/column", "orc/stream", "orc/api"],
 [("per-type readers", "orc/column/*.go Next/Seek"), ("stream decoders", "orc/stream/*.go")],
 "column readers executed on hand-built streams with symbolic content")

prop("C05", "Integer run-length encoding is lossless",
 "Every sequence of integers, signed or unsigned, encoded with the integer run-length encoding and flushed, decodes to exactly that sequence and nothing more. Encoding never fails or panics, whatever runs, deltas, outliers and lengths the sequence has.",
 "inputs", "all sequences of 1 to 3 arbitrary 64-bit integers; sequences of fixed structure around the run length limits (3, 10, 128, 256, 511-513, 1024) with arbitrary 64-bit values at symbolic places",
 SAMPLED + "mode selection depends on bit widths and percentiles of the whole run, which no sample set covers.",
 ["orc/encoding/int.go"],
 [("mode selection and the four run writers", "orc/encoding IntRL2 encoder"), ("run decoders", "orc/encoding IntRL2 decoder")],
 "encoder and decoder executed on symbolic sequences")

prop("C06", "The integer decoder implements the ORC specification",
 "Every byte sequence that is a valid ORC RLEv2 encoding decodes to the integers that the specification assigns to it, and every truncated one is reported as an error. This holds for all four run kinds, all bit widths and all run lengths, whatever writer produced the bytes.",
 "inputs", "run headers of all kinds, widths and a range of lengths with arbitrary payload bytes",
 SAMPLED + "the decoder is only tested on the examples of the specification and on what this writer produces, which never uses most headers.",
 ["orc/encoding/int.go"],
 [("run decoders", "orc/encoding IntRL2 decoder")],
 "decoder compared with an independent reference decoder on symbolic payloads")

prop("C07", "Byte, boolean, float and varint encodings are lossless and to spec",
 "Byte run-length, boolean bit, float, double, varint and decimal-scale encodings give back every sequence of values encoded, and the bytes are those that the ORC specification describes. Encoders can be flushed and reused any number of times without values leaking from one run into the next.",
 "inputs histories", "all sequences of up to N values, all flush points",
 SAMPLED + "run boundaries, flushes in the middle of a byte and extreme values are not covered.",
 ["orc/encoding"],
 [("byte run length", "orc/encoding ByteRL"), ("bool", "orc/encoding BoolRL"), ("floats", "orc/encoding ieee754"), ("varints", "orc/encoding base-128")],
 "encoders and decoders executed on symbolic sequences and compared with reference decoders")

prop("C08", "Date, timestamp and decimal conversions are exact",
 "Converting a day number to a date and back, a time to a timestamp and back, and a decimal to a number yields the value that the calendar and arithmetic define, for the whole range of the types, before and after 1970, in any time zone. Nanosecond encoding of timestamps is lossless for every nanosecond value.",
 "inputs", "all 32-bit day numbers in bounded slices, all seconds, all nanosecond values 0..999999999",
 SAMPLED + "a few dates after 1970 are tried.",
 ["orc/api", "orc/encoding"],
 [("date and timestamp types", "orc/api"), ("nanosecond scaling", "orc/encoding")],
 "conversion functions executed on symbolic values and compared with reference arithmetic")

prop("C09", "Column statistics describe the rows written",
 "The statistics of every column of a written file, and what a reader shows of them, hold the exact number of non-null values, whether nulls may occur, and for the typed statistics the exact minimum, maximum, sum and counts of the rows written.",
 "inputs configurations", "all values and null patterns of 3 rows in one or several stripes, all types",
 SAMPLED + "statistics are hardly compared at all; minima, maxima and sums depend on all values.",
 ["orc/writer.go", "orc/column"],
 [("statistics kept by column writers", "orc/column writer"), ("merge over stripes", "orc/writer.go")],
 "the footer and metadata of the written file are parsed by an independent parser and compared with statistics computed from the symbolic rows")

prop("C10", "Row index entries describe and locate their row groups",
 "A file written with a row index has, per stripe and column, one entry per group of stride rows; its statistics are those of the rows of the group. Its positions lead to the first value of the group in every stream of the column.",
 "inputs configurations", "all values and null patterns of a few rows, several strides, with and without compression and small chunks",
 SAMPLED + "no test looks at the index written.",
 ["orc/writer.go", "orc/column", "orc/stream"],
 [("index entries at stride boundaries", "orc/column writers"), ("stream positions", "orc/stream GetPosition")],
 "indexes of written files parsed by an independent parser, compared with symbolic rows")

prop("C11", "Compression framing is lossless at every chunk boundary",
 "Any data, cut by the writer into chunks and compressed, is returned unchanged by the reader, whatever the chunk size and whether a chunk is stored compressed or original. Chunk headers hold the exact length and kind of every chunk, and a length that does not fit is an error, not a wrong header.",
 "inputs configurations", "all data of bounded length, all chunk sizes, every mix of chunks that compress and that do not; all header values below 2^23",
 SAMPLED + "chunks are never smaller than the data in the tests.",
 ["orc/common", "orc/stream"],
 [("chunk writer", "orc/stream writer"), ("chunk reader", "orc/stream reader")],
 "framing code executed symbolically with a model of deflate that may or may not compress each chunk")

prop("C12", "Written files conform to the ORC file layout",
 "A written file starts and ends with the ORC magic, and its postscript, footer and stripe directory describe it exactly: stripes and streams lie where their lengths and offsets say, without gaps or overlaps, with the row counts, types, encodings and compression that were used. An independent reader that trusts only the specification finds every byte.",
 "inputs configurations", "all rows and null patterns of 3 rows per type under 7 option sets",
 SAMPLED + "files are only read back by the same library, so that matching mistakes cancel out.",
 ["orc/writer.go", "orc/stripe.go"],
 [("stripe flush", "orc/writer.go stripeWriter"), ("footer, metadata and postscript", "orc/writer.go Close")],
 "written bytes parsed by an independent parser of the format")

prop("C13", "Reading a projection reads exactly the projected columns",
 "Reading only some columns of a file, nested ones included, gives for those columns exactly the rows that reading the whole file gives, also after a seek, whatever columns lie between. A projection that names no column of the file is an error.",
 "inputs configurations", "every subset of the columns of several schema shapes, all rows and nulls of a few rows",
 SAMPLED + "one projection of one example file is tried.",
 ["orc/reader.go", "orc/api"],
 [("stream selection", "orc/reader.go newStripeReader"), ("vector creation", "orc/api CreateVector")],
 "symbolic rows and symbolic column subsets")

prop("C14", "Nulls survive, at every level, in reused batches",
 "A row is null after reading exactly if it was null when written, for plain columns, structs with nulls and structs inside structs; the values of other rows do not shift. A batch that is reused carries neither values nor nulls of its previous rows.",
 "inputs configurations histories", "every null pattern of up to 4 rows for columns and structs of several shapes, every batch size",
 SAMPLED + "nulls are tested for a few columns and one batch.",
 ["orc/column", "orc/api", "orc/reader.go"],
 [("present streams", "orc/column"), ("struct null propagation", "orc/column struct reader and writer")],
 "symbolic null flags at every level of nested schemas")

prop("C15", "Malformed column data is an error, never a panic or a hang",
 "Decoding any byte sequence as any encoding, stream or column either returns values or an error; it never panics, loops forever or allocates beyond what its input and the request allow.",
 "inputs", "all byte sequences up to a bounded length for every decoder, stream and column reader",
 SAMPLED + "no test decodes malformed data.",
 ["orc/encoding", "orc/stream", "orc/column"],
 [("decoders", "orc/encoding"), ("stream readers", "orc/stream"), ("column readers", "orc/column")],
 "decoders executed on fully symbolic bytes")

prop("C16", "Malformed metadata is an error, never a panic",
 "A file whose postscript, footer, metadata, stripe footer or row index holds arbitrary field values opens, reads and seeks with results or errors, but never panics, hangs or reads outside the file.",
 "inputs", "arbitrary values of the length, count, kind and tree fields of every metadata message",
 SAMPLED + "all tests read well-formed files.",
 ["orc/reader.go", "orc/stripe.go", "orc/api"],
 [("tail extraction", "orc/reader.go"), ("schema unmarshalling", "orc/reader.go"), ("stripe information checks", "orc/reader.go")],
 "reader executed on metadata with symbolic fields")

prop("C17", "A cut file is never read as if it were complete",
 "Every proper prefix of a written file is rejected with an error when it is opened or read; it never panics and never yields rows that were not written.",
 "inputs crash_points", "every cut point of files of several types and options",
 SAMPLED + "no test reads a cut file.",
 ["orc/reader.go", "orc/stream"],
 [("magic and length checks", "orc/reader.go"), ("chunk reader end handling", "orc/stream")],
 "symbolic cut point over a file written by symbolic execution")

prop("C18", "The schema read is the schema written",
 "The schema a reader reports has the same tree of types, field names, identifiers and encodings as the one the file was written with, and column ids are the pre-order numbers of the tree. Schemas that are not a valid tree for writing are rejected when the writer is created.",
 "inputs configurations", "every tree of up to 5 nodes with symbolic kinds and fan-out, with names",
 SAMPLED + "two or three fixed schemas are used.",
 ["orc/api", "orc/reader.go", "orc/writer.go"],
 [("schema normalisation and flattening", "orc/api"), ("types of the footer", "orc/reader.go, orc/writer.go")],
 "schema code executed on symbolic trees")

prop("C19", "Readers and writers do not affect each other",
 "Interleaving operations of several readers of one file, several batch readers of one reader, or several writers gives each of them exactly what it would get alone. Closing one leaves the others working.",
 "schedules histories", "every interleaving of a bounded number of operations of two readers or two writers",
 SAMPLED + "no test has two objects in use at the same time; shared pools, buffers and globals show only then.",
 ["orc/reader.go", "orc/writer.go", "orc/column", "orc/stream", "orc/api"],
 [("file cloning", "orc/io"), ("per reader state", "orc/reader.go")],
 "symbolic interleavings executed over the real code")

prop("C20", "File tails of any size are found",
 "A file opens and reads the same whether its footer and metadata are smaller than, exactly as large as, or larger than the piece of the file's end that is read first.",
 "inputs configurations", "tail lengths around the size of the first read",
 SAMPLED + "all tails of test files fit in the first read.",
 ["orc/reader.go"],
 [("tail extraction in two reads", "orc/reader.go extractFileTail")],
 "tail extraction executed with symbolic lengths")

prop("C21", "Recorded stream positions lead back to the same values",
 "A position recorded while a stream is written leads, when a reader seeks to it, to exactly the value that was written next. This holds for every stream encoding, with and without compression, for any chunk size and any number of values before it.",
 "inputs configurations histories", "all values, every position of streams of several chunks",
 SAMPLED + "positions are tested for a few constant streams.",
 ["orc/stream", "orc/encoding"],
 [("GetPosition of stream writers", "orc/stream"), ("Seek of stream readers", "orc/stream")],
 "stream writers and readers executed on symbolic values and positions")

prop("C22", "I/O failures surface as errors",
 "If any read, seek, write or close of the underlying file fails, the operation under way or a later one of the same history reports an error; a failure is never swallowed so that rows are silently lost or invented.",
 "fault_sequences", "a failure at every I/O call of writing and of reading files of several types and options",
 SAMPLED + "no test injects a failure.",
 ["orc/reader.go", "orc/writer.go", "orc/stream"],
 [("error returns", "orc/reader.go, orc/writer.go, orc/stream")],
 "symbolic fault index over the I/O calls of the executed code")

prop("C23", "Short reads of the file do not change the result",
 "A file implementation that returns fewer bytes than asked for, in any pattern allowed by the reader contract, gives the same schema and rows as one that returns all.",
 "fault_sequences inputs", "every pattern of short reads of bounded length over files of several types and options",
 SAMPLED + "the files of the tests always return all bytes.",
 ["orc/reader.go", "orc/stream", "orc/io"],
 [("loops over Read", "orc/stream, orc/reader.go")],
 "symbolic read lengths")

CLAIMED = re.findall(r'P\("(C\d+)"', "".join(open(f).read() for f in sorted(__import__("glob").glob("engine/specs*.go"))))
NA = {}
with open("properties.jsonl", "w") as f:
    for p in P:
        if p["id"] not in CLAIMED and p["id"] not in NA: continue
        for m in (p["title"],): assert len(m) <= 80, m
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        f.write(json.dumps(o) + "\n")
m = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="Symbolic execution of the real Go code (SSA form built from /repo on every run) with z3 deciding every branch and assertion; counterexamples are replayed natively against the real code before they are reported.")
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append(dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
            technique="bounded symbolic execution of Go SSA with an SMT solver (z3), native replay of counterexamples",
            level="model_checking", level_note=p["note"] + "; holds within the bounds listed in the evidence"))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
