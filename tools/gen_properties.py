#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing; the output is committed)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {})}})
Q = "mixtera/core/query/"
prop("C01", "Chunk streams never repeat or invent samples; arbitrary streams cover all",
     "Across all chunks generated for one query, no sample (dataset, file, row) is handed out twice, and every sample handed out belongs to the query's result and is handed out under the property values the metadata records for it. With an arbitrary mixture, the chunks together hand out every sample of the result exactly once, and every chunk but the last one of a key combination has the requested size.",
     ["inputs", "histories", "configurations"],
     "every metadata table, query result, chunk size, mixture and sequence of mixture updates during generation",
     "The tests hand a few hand-written interval lists to the generator with one mixture; repetition or loss appears only for particular combinations of fragmented intervals, chunk sizes and mixture changes.",
     [Q+"query_result.py", Q+"chunker/src/chunker.cpp", Q+"mixture/arbitrary_mixture.py"],
     [("chunk generator over a per-key chunker index", Q+"query_result.py: _chunk_generator, _generate_*"), ("index construction", Q+"chunker/src/chunker.cpp")],
     [("remaining[key]", "intervals of the index not handed out yet", Q+"query_result.py key iterators")], ["ChunkerResult objects returned by next(QueryResult)"])
prop("C02", "A strict chunk has exactly the composition its mixture prescribes",
     "With a strict (the default) static (or hierarchical) mixture, every chunk contains, for every mixture component, exactly the number of samples the mixture prescribes, all of them taken from data whose properties match that component, and so exactly the requested chunk size in total. If some component cannot be filled any more, no incomplete chunk is delivered and the stream ends.",
     ["inputs", "histories", "configurations"],
     "every metadata table, strict mixture, chunk size and history of chunks before, with single- and multi-property keys",
     "The tests check a handful of mixtures on two or three datasets and only the first chunks; rounding, fragmentation and exhaustion boundaries are not sampled.",
     [Q+"query_result.py", Q+"mixture/static_mixture.py", Q+"mixture/mixture_key.py"],
     [("strict chunk assembly", Q+"query_result.py: _generate_per_mixture_component_chunks")])
prop("C03", "Best-effort chunks are full size and deviate only for exhausted components",
     "With a best-effort mixture, every chunk has exactly the requested size, the composition reported with a chunk is the composition of the chunk, and a component falls short of its prescribed number only in the chunks from which on its data is exhausted. What exhausted components are missing is given to the remaining components in proportion to their prescribed numbers; generation fails only when all components together cannot fill the chunk.",
     ["inputs", "histories", "configurations"],
     "every metadata table, non-strict mixture, chunk size and position in the stream at which components run dry",
     "Redistribution happens only when keys run dry inside a chunk, in an order depending on sizes; the tests cover one such case.",
     [Q+"query_result.py"], [("redistribution of exhausted keys", Q+"query_result.py: _distribute_best_effort")])
prop("C04", "The chunk stream is a deterministic function of data, query and mixture history",
     "Executing the same query with the same mixture and the same updates over the same registered data yields the same sequence of chunks: in another process with another hash seed, from the query cache instead of freshly computed, and after any number of earlier queries. Changing the mixture at the same point of the stream has the same effect every time.",
     ["configurations", "histories"],
     "every process hash seed, cache state and history of earlier queries; every place of a mixture update in the stream",
     "A test process has one hash seed and compares nothing across processes; ordering by hash or by insertion survives any single-process test.",
     [Q+"query_result.py", Q+"query_cache.py", Q+"mixture/mixture_key.py", "mixtera/utils/utils.py"],
     [("seeded shuffling by hash of the key", Q+"query_result.py, mixtera/utils/utils.py: seed_everything_from_list"), ("query cache", Q+"query_cache.py")])
prop("C05", "Nodes of a data-parallel group get equal chunks; groups and workers share none",
     "For every worker, all nodes of one data-parallel group receive the same chunks in the same order, whatever the order in which nodes, workers and groups ask. No chunk is handed to two data-parallel groups or to two workers, none is skipped within a group, and no chunk generated for the job is lost.",
     ["schedules", "configurations"],
     "every interleaving of requests by nodes, workers and groups; every number of groups, nodes and workers",
     "The tests request chunks in a few fixed orders.",
     [Q+"chunk_distributor.py"], [("per (group, node, worker) cursor into a per-group chunk cache", Q+"chunk_distributor.py: next_chunk_for")],
     [("next chunk", "index within the group the worker of a node receives next", Q+"chunk_distributor.py: _next_chunk"), ("cache", "chunks a node still has to fetch", Q+"chunk_distributor.py: _chunk_cache")], ["ChunkDistributor.next_chunk_for"])
prop("C06", "A chunk is kept until every node of its group has moved past it, and no longer",
     "A chunk stays available until every node of its data-parallel group has fetched it and, on every node, the worker has asked for its next chunk, so that a checkpoint can still refer to it. Afterwards it is dropped: per worker of a group, the server never holds more chunks than the slowest node is behind the fastest plus the one being worked on.",
     ["schedules", "configurations"],
     "every interleaving of nodes of different speed; every number of groups, nodes and workers",
     "Tests use one to two nodes in lockstep; early or missing eviction only shows when nodes drift apart.",
     [Q+"chunk_distributor.py"], [("usage counting and eviction", Q+"chunk_distributor.py: next_chunk_for, _increment_usage")],
     [("usage", "number of nodes which received a chunk", Q+"chunk_distributor.py: _chunk_usage")])
prop("C07", "Restoring a checkpoint resumes exactly where every worker stopped",
     "After restoring a checkpoint, every worker of every node first receives the chunk it was working on, positioned at the sample it had reported, and from then on all workers receive exactly the chunks they would have received without the interruption, including chunks not generated yet, the same key ids and the mixture that was active. Nothing before the reported positions is repeated and nothing after them is lost, wherever in the stream, after however many mixture changes, failed chunks or previous restores the checkpoint was taken.",
     ["crash_points", "schedules", "histories", "configurations"],
     "every point at which a checkpoint can be taken, every later crash point, every mixture history, repeated restores",
     "The tests restore one checkpoint after a couple of chunks of a static mixture; replay of the generator depends on the entire mixture history.",
     [Q+"chunk_distributor.py", Q+"query_result.py", "mixtera/core/client/local/local_stub.py", "mixtera/network/server/server.py"],
     [("persisted distributor and generator state, replay of the mixture log", Q+"chunk_distributor.py: from_checkpoint; "+Q+"query_result.py: from_cache, replay")])
prop("C08", "A checkpoint is taken only at a consistent point and completes only when usable",
     "A checkpoint is taken once every node of every data-parallel group has reported its worker positions for it: nodes reporting together get the same id, and different checkpoints of a job (also after a restore) get different ids. A node reporting twice and a report from an inconsistent point (nodes of a group at different chunks) are rejected, and afterwards checkpointing still works. A checkpoint reported as completed can be restored.",
     ["schedules", "histories", "configurations"],
     "every interleaving of reports, requests and completion polls of all nodes, including erroneous reports",
     "The tests report once per node in a fixed order.",
     [Q+"chunk_distributor.py", "mixtera/utils/checkpoint.py"],
     [("collecting worker status until all nodes reported", Q+"chunk_distributor.py: checkpoint, _validate_checkpoint_state, checkpoint_completed")])
prop("C09", "Training feedback moves dynamic mixtures forward, once per step and in order",
     "A dynamic mixture starts from its initial distribution and changes only through training feedback: the training step it considers never goes back, and the losses and counts of every feedback are accounted exactly once, under the component they were reported for. Every new mixture is a distribution over the components the algorithm was given and applies from the next generated chunk on under a new mixture id. Chunks report the id of the mixture they were generated with, and ids never decrease within a job, also across a restore.",
     ["histories", "schedules"],
     "every history of feedback messages (steps, losses, mixture ids), chunk requests and restores",
     "Tests call the algorithm with one to three updates; ordering and duplication of feedback against chunk generation is not exercised.",
     [Q+"mixture/dynamic_mixture.py", "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py", Q+"query_result.py", Q+"chunk_distributor.py"],
     [("step guard and update of the mixture", Q+"mixture/dynamic_mixture.py: process_client_feedback; dynamic_mixing.py: process_losses")])
prop("C10", "A mixture schedule always applies the entry whose interval contains the step",
     "With a schedule of mixtures, the mixture used for a chunk is the entry with the latest start not after the latest reported training step (the first entry before any start is reached), in whatever order the entries were given. Entries change exactly when the training step reaches their start, and every entry behaves as it would on its own (sizes, strictness, dynamics) from then on.",
     ["histories", "configurations"],
     "every schedule and every history of reported training steps, including skipped steps",
     "Tests walk one schedule with consecutive steps.",
     [Q+"mixture/mixture_schedule.py"], [("current entry by training step", Q+"mixture/mixture_schedule.py: process_client_feedback / current_mixture")])
prop("C11", "Key ids are stable, unique and shared by all nodes of a job",
     "Within a job, every combination of property values delivered with a sample has one id: the ids of different combinations differ, and the same combination keeps its id in all chunks, for all nodes, in the feedback to the mixture and after restoring a checkpoint. Matching combinations of a mixture share the id only if they denote the same component.",
     ["histories", "schedules"],
     "every order in which combinations first appear, every mixture change and restore",
     "Tests check ids of one chunk.",
     [Q+"query_result.py", Q+"mixture/mixture_key.py"], [("key id map", Q+"query_result.py: key_id_map, ChunkerResult")])
prop("C12", "A query returns exactly the samples satisfying its conditions",
     "A query returns exactly those samples of the registered datasets whose recorded properties satisfy its conditions: equality and inequality, comparisons, ranges given by several conditions on one property, value lists, missing values, and multi-valued properties (a sample satisfies a condition if one of its values does). A select without conditions returns everything, chained selects return what any of them returns, and values containing quotes or other special characters are data, never syntax.",
     ["inputs", "programs"],
     "every set of conditions, metadata table and property value, including quotes, empty strings and missing values",
     "Tests compare a few generated SQL strings and three-row tables.",
     [Q+"operators/select.py", Q+"query.py", Q+"operators/_base.py", "mixtera/core/datacollection/mixtera_data_collection.py"],
     [("SQL generation", Q+"operators/select.py: generate_sql; "+Q+"query.py: execute")])
prop("C13", "The chunk index groups every result sample under its exact property values",
     "The intervals a query is reduced to contain every matching sample exactly once and never cover a sample that did not match or has other property values. The chunk index built from them maps each combination of property values, dataset and file to exactly these intervals, in order, regardless of how many rows, properties, files or threads are involved.",
     ["inputs", "configurations", "schedules"],
     "every interval table (fragmentation, number of files, property types, missing values) and every number of index threads",
     "The extension is tested with small tables; splitting over threads, batch boundaries and merging are not sampled.",
     [Q+"query.py", Q+"chunker/src/chunker.cpp", Q+"query_result.py"],
     [("interval SQL", Q+"query.py: execute"), ("parallel index construction and merge", Q+"chunker/src/chunker.cpp: create_chunker_index")])
prop("C14", "The dataset registry records every sample of a registered dataset, atomically",
     "Registering a dataset records exactly one entry per sample of each of its files with the properties its metadata parser extracts, no matter how many files, workers or types; names are unique, unknown ones are reported as such, and a failing registration leaves no trace that prevents using or re-registering the dataset. Removing a dataset removes everything recorded for it and nothing of the others.",
     ["histories", "inputs", "fault_sequences"],
     "every history of registrations (also failing ones), removals and reopenings of the collection",
     "Tests mock the database or register one dataset once.",
     ["mixtera/core/datacollection/mixtera_data_collection.py", "mixtera/core/datacollection/datasets/dataset.py"],
     [("registration", "mixtera_data_collection.py: register_dataset, _insert_*, _add_samples_to_database"), ("removal", "mixtera_data_collection.py: remove_dataset")])
prop("C15", "The query cache returns a result only for the same query on unchanged data",
     "A query served from the cache yields the same chunks as executing it now: it is never served for another query, nor after datasets were registered or removed, nor from a partially written or unreadable entry. Entries that are still valid are found again, also if stale ones exist beside them, and using one does not change it.",
     ["histories", "fault_sequences"],
     "every history of queries, registrations, removals and consumption of cached results",
     "Tests cover one hit and one miss.",
     [Q+"query_cache.py", "mixtera/core/client/local/local_stub.py", "mixtera/network/server/server.py"],
     [("hash of the query and data collection version", Q+"query_cache.py")])
prop("C16", "A server job behaves like a local one and jobs do not affect each other",
     "Requests of clients to the server have the effect and result of the same operations performed locally, whichever connection or order they come in. Jobs are independent: queries, chunk requests, feedback and checkpoints of one job never change what another job receives; unknown jobs and duplicate job ids are reported as errors and leave the server serving others.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of requests of several clients and jobs, including failing requests and dropped connections",
     "Server tests mock the network and one request at a time.",
     ["mixtera/network/server/server.py", "mixtera/network/connection/server_connection.py", "mixtera/core/client/server/server_stub.py", "mixtera/core/client/local/local_stub.py"],
     [("request dispatch per connection", "server.py: _dispatch_client"), ("job table", "server.py: _chunk_distributor_map")])
prop("C17", "The wire protocol delivers every message unchanged or reports failure",
     "Every integer, string, bytes and object written by one side is read back identically by the other, in order, no matter how the bytes are split into packets and how large the values are. A connection that ends or stalls in the middle of a message yields no message, never a truncated or mixed one, and the reader terminates.",
     ["inputs", "schedules", "fault_sequences"],
     "every message content and size, every fragmentation of the byte stream and every cut position",
     "Tests mock StreamReader.readexactly with whole messages.",
     ["mixtera/network/network_utils.py"], [("length-prefixed framing with timeouts", "network_utils.py: read_bytes, read_int, write_*")])
prop("C18", "Reading a chunk yields each of its samples exactly once, in every mode",
     "Iterating over a chunk yields each sample of the chunk exactly once under its key and then ends, whether read in sequence, in windows, with several reader processes or remotely, and errors of the data reach the consumer. In windows every full window follows the mixture as far as data remains, the order is the same each time, and skipping n samples leaves exactly the rest of the same order.",
     ["inputs", "configurations", "schedules"],
     "every chunk content, mixture, window size, degree of parallelism, number of reader processes' interleavings and skip position",
     "Tests iterate few chunks with mocked readers and mostly one mode at a time.",
     [Q+"result_chunk.py", "mixtera/utils/prefetch_iterator.py"], [("reader modes", Q+"result_chunk.py: _iterate_*, _get_iterator_*")])
prop("C19", "Dataset readers return exactly the requested rows, whatever the file layout",
     "For any set of row ranges of a file, the reader of its dataset type yields exactly these samples in order, after applying the dataset's parsing function, independent of batch sizes, row groups, blank or long lines, non-ASCII text and compression of the file. Metadata scanning numbers the samples the same way, so row n of the index is row n of the reader.",
     ["inputs"],
     "every file content and layout, every list of row ranges",
     "Tests read two-line files with one range.",
     ["mixtera/core/datacollection/datasets/jsonl_dataset.py", "mixtera/core/datacollection/datasets/parquet_dataset.py", "mixtera/core/datacollection/datasets/web_dataset.py", "mixtera/utils/webdataset_utils.py"],
     [("range reading", "datasets/*.py: read_ranges_from_files, inform_metadata_parser")])
prop("C20", "Token sequences are consecutive windows over the concatenated token stream",
     "Reading a chunk as tokens yields, per key, consecutive sequences of sequence length plus one tokens of the concatenation of the tokenized samples (with the requested begin and end markers), advancing by the sequence length with overlap and by one more without; nothing is skipped, repeated or mixed between keys. Only an incomplete tail is dropped, except that a key with at least one token yields at least one (padded) sequence if so configured.",
     ["inputs", "configurations"],
     "every text, sequence length, batch size, overlap, marker and at-least-one-sample setting",
     "Tests use a mocked tokenizer with two or three texts.",
     ["mixtera/utils/tokenizing_iterator.py", Q+"result_chunk.py"], [("token buffer", "tokenizing_iterator.py")])
prop("C21", "Background tokenization is equivalent to sequential tokenization",
     "For every schedule of the background thread and the consumer, tokenizing in the background yields the same sequences in the same order as tokenizing on demand, ends when that ends, and raises the error that one raises; the consumer never blocks forever.",
     ["schedules", "inputs", "fault_sequences"],
     "every interleaving of producer and consumer and every position of an error or of the end of the data",
     "Tests run the thread under one arbitrary schedule.",
     ["mixtera/utils/tokenizing_iterator.py", "mixtera/utils/prefetch_iterator.py"], [("condition variable", "tokenizing_iterator.py: ThreadedTokenizingIterator")])
prop("C22", "Mixture sizes are exact, non-negative and as proportional as possible",
     "For every mixture and chunk size, the number of samples per component is non-negative, sums to exactly the chunk size, and differs from the exact share by less than one sample, the samples left after rounding down going to the components that lost most by it; this holds for static, hierarchical and inferred mixtures, also within schedules and dynamic mixtures and after the chunk size changes. Static mixtures with negative shares or shares not summing to one are rejected, and mixtures survive serialization unchanged.",
     ["inputs"], "every distribution and chunk size",
     "Tests use proportions that divide evenly.",
     [Q+"mixture/static_mixture.py", Q+"mixture/hierarchical_static_mixture.py", Q+"mixture/mixture.py"], [("largest remainder rounding", "static_mixture.py, hierarchical_static_mixture.py")])
prop("C23", "Mixture component matching is consistent with equality, hashing and order",
     "A mixture component matches data if every property it names has a value in common with the data (or both have none); components with the same properties and values match the same data, hash equally and have the same text, in whatever order properties and values were given and however the component was built. The order of components is total, transitive and independent of how they were given (fewer properties first, then names and numbers of values, then values), and components survive serialization unchanged.",
     ["inputs"], "all pairs and triples of components", "Tests compare a few pairs.",
     [Q+"mixture/mixture_key.py"], [("comparison", "mixture_key.py: __eq__, __lt__, __hash__")])
prop("C24", "The training data loaders deliver every node the same samples and each once",
     "A training job reading through the data loader with any number of loader workers, nodes and data-parallel groups gives all nodes of a group the same samples in the same per-worker order, gives different groups and workers disjoint samples, and together delivers each sample of the job's chunks exactly once, each with the id of its key. The position a loader worker notes for checkpoints is the index, within its current chunk, of the sample it yielded last. If all loaders stop after a checkpoint of idle workers and new loaders continue from it, every worker goes on in the same chunk with that very sample, and what follows is as before.",
     ["configurations", "schedules", "histories"],
     "every number of groups, nodes, workers and reading modes, every interleaving of loaders and every point to checkpoint",
     "Tests of the loaders mock the client.",
     ["mixtera/torch/mixtera_torch_dataset.py", "mixtera/hf/mixtera_hf_dataset.py", "mixtera/core/client/mixtera_client.py"],
     [("iterable dataset", "mixtera_torch_dataset.py: __iter__")])
prop("C25", "Mixing algorithms always produce a valid distribution from accumulated losses",
     "For every sequence of losses and counts (components may lack data, be new, or be missing at the end of the arrays), what a dynamic mixing algorithm returns is a probability distribution (non-negative, finite, sums to one) determined by the history of the reports and the initial mixture alone, with every report accounted for exactly once under the right components; a copy of an algorithm continues like the original. Simple averaging returns shares proportional to the average losses of the components that have data. ADO returns nothing before its start step, fits its laws to the steps after the ignored ones at start and every interval, follows its documented recurrence and variant (smoothing factors, exponent, prior, feedback of a new mixture id), and gives every component with data at least the configured minimum share, up to renormalization.",
     ["histories", "inputs"], "every history of losses, counts and component ids, including new components and zero counts",
     "Tests use one or two updates with fixed numbers.",
     ["mixtera/core/algo/ado/ado.py", "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py", "mixtera/core/algo/loss_avg/loss_avg.py"],
     [("update and projection", "ado.py: calc_mixture; dynamic_mixing.py")])
prop("C26", "Property calculation and metadata parsing assign each sample its own value",
     "Metadata parsers (own and bundled ones) record for each sample exactly the properties found in its record, missing optional ones as missing, and refuse it altogether, recording nothing, if a mandatory property is missing, a single-valued one is a list, or an enumerated one has a value that is not an option. The local property calculation passes every sample of the given files to the user's function exactly once, in batches of at most the batch size, with its own file and line, and assigns each sample the value returned for it, while a function that returns too few, too many or invalid values is an error. Parsers are found under the name they were added with, and an existing name is replaced only on demand.",
     ["inputs", "configurations"], "every declaration, record content, file sizes and batch size",
     "Tests use single records and one batch.",
     ["mixtera/core/datacollection/index/parser/parser_collection.py", "mixtera/core/datacollection/index/parser/metadata_parser.py", "mixtera/core/processing/property_calculation/local_executor.py"],
     [("parser collection", "parser_collection.py"), ("validation", "metadata_parser.py: add_metadata"), ("batched execution", "local_executor.py")])
prop("C27", "Feedback of a training loop arrives once and names the mixture in use",
     "As long as a training loop has data of a job, each of its reports reaches the system exactly once from the process with data and tensor parallel rank 0 and not at all from others, with the losses, counts and step it was given, whatever container they are in. The report names the newest mixture of which a loader of this client has received a chunk in this job, never an older one than before, also after some or all loader workers have come to their end, and starts anew with the next job. It works on datasets, data loaders, and objects wrapping them.",
     ["histories", "schedules", "inputs"], "every mixture history, interleaving of loaders and reports, number of workers, jobs in a row, and kind of container",
     "Tests replace the client, and never reach the end of the data.",
     ["mixtera/utils/feedback.py", "mixtera/core/client/mixtera_client.py", "mixtera/utils/dataset_utils.py", "mixtera/network/server/server.py"],
     [("reporting", "feedback.py: handle_mixtera_feedback"), ("newest mixture", "mixtera_client.py: stream_results"), ("finding the dataset", "dataset_utils.py")])
prop("C28", "Metadata parsers sent to a server compute what their class says",
     "A metadata parser class a client registers under a new name, at a server from the class alone or locally, is exactly what computes the properties of the samples of every dataset registered with that name afterwards, whichever client asks, in whatever processes the files are parsed, and whatever the classes of other parsers are called. A name keeps its class as long as the process lives: later registrations under it (and under the names of the bundled parsers) are refused, of several at the same time exactly one succeeds; datasets keep their properties when the server restarts. A class that cannot be used on its own, an unknown name, or a class failing on a record is reported and registers nothing.",
     ["histories", "inputs", "schedules"], "every sequence and overlap of registrations, classes and their names, files, restarts",
     "Tests mock the connection: no class is ever sent to a server which then parses with it.",
     ["mixtera/network/server/server.py", "mixtera/network/connection/server_connection.py", "mixtera/core/datacollection/index/parser/parser_collection.py", "mixtera/core/datacollection/mixtera_data_collection.py"],
     [("receiving classes", "server.py: _register_metadata_parser"), ("sending classes", "server_connection.py: _register_metadata_parser"), ("names", "parser_collection.py: MetadataParserFactory.add_parser"), ("parsing", "mixtera_data_collection.py: process_file_for_metadata")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P))
