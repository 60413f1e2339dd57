"""The properties and the constructs of the package each one is decided on.

funcs: glob patterns of functions (relative to valor_lite) whose value flow is
compared with the reviewed definition; "name:aspect,aspect" limits the aspects.
classes: declarations compared.  rules: dedicated analyses in vf/rules.py.
"""

MEM, FILE = "cache.ephemeral.", "cache.persistent."
MW, MR, FW, FR = MEM + "MemoryCacheWriter.", MEM + "MemoryCacheReader.", FILE + "FileCacheWriter.", FILE + "FileCacheReader."
CL, OD, SS, TG = "classification.", "object_detection.", "semantic_segmentation.", "text_generation."

P = []


def prop(id, title, statement, over, q, why, mech, funcs, classes=(), rules=(), state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, mech=mech, funcs=list(funcs),
                  classes=list(classes), rules=list(rules), state=list(state), observe=list(observe)))


WRITERS = [MW + "*", FW + "write_*", FW + "flush", FW + "__*__", FW + "_get_or_create_writer", FW + "_close_writer",
           FW + "_generate_next_filename", FW + "to_reader"]
READERS = [MR + "*", FR + "iterate_*", FILE + "FileCache.get_files", FILE + "FileCache.get_dataset_files"]

# ------------------------------------------------------------------ caches
prop("C01", "Every row written to a cache is read back exactly once, unchanged, in order",
     "For any sequence of row, column, batch and table writes followed by a flush or the end of the writing context, a reader of the same cache returns every written row exactly once, with unchanged values and in the order of writing. This holds for in-memory and on-disk caches and for every batch size and rows-per-file setting. Writing nothing adds no row.",
     ["inputs", "histories", "configurations"],
     "every interleaving of write calls of every size, every batch size, every rows-per-file limit, both backends",
     "tests write a few fixed tables with a few sizes; losing, duplicating or reordering rows needs a particular combination of buffered remainder, call order and limit",
     [("buffered batch writing and flushing", "cache/ephemeral.py MemoryCacheWriter.write_batch/flush/write_table"),
      ("file rotation and buffered writing", "cache/persistent.py FileCacheWriter.write_batch/write_table/flush"),
      ("ordered reading", "cache/persistent.py FileCacheReader.iterate_tables")],
     WRITERS + [MR + "iterate_tables", FR + "iterate_tables", FR + "iterate_ordered_fragments", MEM + "MemoryCache.count_rows", FILE + "FileCache.count_rows",
                FILE + "FileCache.get_files", FILE + "FileCache.get_dataset_files", FW + "create", FW + "__init__", MEM + "MemoryCache.__init__", FILE + "FileCache.__init__", FILE + "FileCache.schema", MEM + "MemoryCache.schema"],
     observe=["iterate_tables of the reader obtained from the writer"])

prop("C02", "An on-disk cache never overwrites a data file and reads files in write order",
     "Each data file a cache writer opens has a name no earlier data file of that cache has, and reading visits the files in the order in which they were written, however many files there are. A file holds at most the configured number of rows plus what one indivisible write needs, and only data files are read as data.",
     ["inputs", "histories", "configurations"],
     "every number of files and every rows-per-file setting",
     "tests create a handful of files; name collisions and lexical-versus-numeric ordering show only with many files or a particular sequence of writes",
     [("file naming", "cache/persistent.py FileCacheWriter._generate_next_filename"), ("numeric fragment order", "cache/persistent.py FileCacheReader.iterate_ordered_fragments"),
      ("rotation", "cache/persistent.py FileCacheWriter.write_batch/write_table")],
     [FW + "_generate_next_filename", FW + "_get_or_create_writer", FW + "_close_writer", FW + "__*__", FW + "create", FW + "write_*", FW + "flush", FW + "sort_by", FR + "iterate_*",
      FILE + "FileCache.get_files", FILE + "FileCache.get_dataset_files", FILE + "FileCache.count_tables", FILE + "FileCache.rows_per_file", FILE + "FileCache._generate_config_path", FILE + "FileCache.__init__"])

prop("C03", "Readers return exactly the rows and columns selected, the same on both backends",
     "Reading a cache with a filter yields exactly the rows that satisfy it and reading with a column selection yields exactly those columns; without them it yields everything. Arrays read from a cache hold the numeric columns in the requested order and accompany the table rows they were taken from. In-memory and on-disk caches agree on all of this.",
     ["inputs", "configurations"],
     "every filter expression, every column selection including none, every table content, both backends",
     "tests use a few filters and column lists on tiny tables",
     [("filter and column push-down", "cache/persistent.py FileCacheReader.iterate_tables"), ("filter then select", "cache/ephemeral.py MemoryCacheReader.iterate_tables")],
     READERS + [MEM + "MemoryCache.count_*", FILE + "FileCache.count_*", MEM + "MemoryCache.__init__", MEM + "MemoryCache.batch_size", FILE + "FileCache.batch_size"])

prop("C04", "A persisted cache or evaluator reopens with the settings it was created with",
     "Loading a persisted cache restores the schema, batch size, rows per file and compression it was created with, and loading a persisted evaluator restores its label names and metadata fields, for every value those settings can take. Loading from a path that does not exist or is not a directory raises an error instead of creating something.",
     ["inputs", "configurations"],
     "every schema, every setting value, every metadata field type",
     "tests round-trip a few configurations; a setting that is dropped or replaced by a default goes unnoticed unless it is non-default",
     [("configuration file", "cache/persistent.py FileCacheWriter.create and FileCacheReader.load"), ("metadata file", "*/shared.py encode_metadata_fields / decode_metadata_fields"), ("load", "*/evaluator.py Evaluator.load")],
     [FILE + "FileCache.*", FR + "load", FW + "create", FW + "__init__", FW + "to_reader", MW + "create", MW + "to_reader", MEM + "MemoryCache.__init__", MEM + "MemoryCache.batch_size", MEM + "MemoryCache.schema"]
     + [t + "shared.encode_metadata_fields" for t in (CL, OD, SS)] + [t + "shared.decode_metadata_fields" for t in (CL, OD, SS)]
     + [t + "shared.generate_*" for t in (CL, OD, SS)]
     + [t + "evaluator.Evaluator.load" for t in (CL, OD, SS)] + [t + "evaluator.Builder.persistent" for t in (CL, OD, SS)] + [t + "evaluator.Builder.in_memory" for t in (CL, OD, SS)]
     + [t + "evaluator.Builder.__init__" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.__init__" for t in (CL, OD, SS)] + [t + "shared.extract_labels" for t in (CL, OD, SS)])

prop("C05", "Only the cache's own files are ever deleted, and only by an explicit delete",
     "Creating a cache where something already exists fails and changes nothing unless its deletion was requested, and no loading, reading, filtering or evaluating operation deletes or truncates an existing file. Deleting a cache removes only the data files and configuration of that cache and its directory once empty, and refuses anything that is not a cache directory.",
     ["inputs", "histories", "configurations"],
     "every path content and every sequence of create, load, delete and evaluate operations",
     "tests delete one freshly created cache; a wrong guard destroys data only for particular directory contents",
     [("existence and type checks", "cache/persistent.py FileCacheWriter.create"), ("delete", "cache/persistent.py FileCacheWriter.delete")],
     [FW + "create", FW + "delete", FW + "sort_by", FR + "load", FILE + "FileCache.get_*", FILE + "FileCache._generate_config_path", FW + "_generate_next_filename", FW + "_get_or_create_writer"]
     + [t + "evaluator.Builder.persistent" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.load" for t in (CL, OD, SS)] + [t + "shared.generate_*path" for t in (CL, OD, SS)] + [OD + "evaluator.Builder._rank", OD + "evaluator.Builder.finalize", CL + "evaluator.Builder.finalize", CL + "evaluator.Builder._create_rocauc_intermediate"],
     rules=["destructive_confined"])

prop("C06", "Sorting a cache yields a permutation of its rows ordered by the requested keys",
     "Sorting a source cache into a sink writes every row of the source (with the requested columns) to the sink exactly once, ordered by the requested keys in the requested directions, however the rows are spread over files and batches and for in-memory and on-disk sources and sinks alike. Sorting a cache in place has the same result. Rows that tie on all keys may appear in any order.",
     ["inputs", "configurations"],
     "every table content, batch size, number of files, key list and direction, every combination of backends",
     "tests sort small tables with few files; a merge that drops a tail or mis-orders across file boundaries needs particular sizes",
     [("in-file sort, then k-way merge", "cache/compute.py sort / _merge"), ("in place sort", "cache/*.py sort_by")],
     ["cache.compute.sort", "cache.compute._merge", MW + "sort_by", FW + "sort_by", MR + "iterate_fragment_batch_iterators", FR + "iterate_fragment_batch_iterators", FR + "iterate_ordered_fragments",
      FILE + "FileCache.get_dataset_files", FILE + "FileCache.get_files", FILE + "FileCache.count_tables", FW + "write_batch", FW + "write_table", FW + "flush", MW + "write_batch", MW + "write_table", MW + "flush"])

prop("C07", "Pages of examples partition the data: nothing is skipped or repeated",
     "For every positive page size and every offset, a page is the contiguous range of results that starts at the offset and holds at most the page size, so that consecutive pages together return every result exactly once. Offsets past the end give an empty page, and without limits everything is returned.",
     ["inputs"],
     "every offset, limit, number of results and split of the results over chunks",
     "tests page through one small data set; boundary arithmetic across chunks depends on offsets relative to chunk sizes",
     [("index arithmetic", "cache/compute.py paginate_index"), ("use per chunk", "*/evaluator.py compute_examples and compute_confusion_matrix_with_examples")],
     ["cache.compute.paginate_index", CL + "evaluator.Evaluator.compute_examples", CL + "evaluator.Evaluator.compute_confusion_matrix_with_examples",
      OD + "evaluator.Evaluator.compute_examples", OD + "evaluator.Evaluator.compute_confusion_matrix_with_examples"])

# ------------------------------------------------------------------ cross-task
EVALS = [CL + "evaluator.Evaluator.compute_*", CL + "evaluator.Evaluator.iterate_values", OD + "evaluator.Evaluator.compute_*", SS + "evaluator.Evaluator.compute_*", SS + "evaluator.Evaluator._compute_*"]
EXTRACT = [t + "shared.extract_counts" for t in (CL, OD, SS)] + [t + "shared.extract_groundtruth_count_per_label" for t in (CL, OD)]

prop("C08", "A datum filter restricts every reported quantity to the selected datums",
     "When a metric, an example listing or a count of datums, annotations or pixels is requested with a datum filter, rows of datums outside the filter contribute nothing to any part of the result, including denominators and totals, and every row of the selected datums contributes. Without a filter all datums contribute.",
     ["inputs", "configurations"],
     "every filter expression, data set and requested metric of the three vision tasks",
     "tests filter by one datum id and look at a few metrics; a denominator that ignores the filter is wrong only when the filter changes it",
     [("filter passed to every scan", "*/evaluator.py compute_* and get_info"), ("counting", "*/shared.py extract_counts, extract_groundtruth_count_per_label")],
     EVALS + EXTRACT + [t + "evaluator.Evaluator.get_info" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.info" for t in (CL, OD, SS)]
     + [CL + "computation.compute_accuracy", SS + "computation.compute_metrics", MR + "iterate_*", FR + "iterate_*"],
     classes=[t + "shared.EvaluatorInfo" for t in (CL, OD, SS)],
     rules=["filter_reaches_scans"])

prop("C09", "Filtering keeps the label space and drops exactly what was filtered out",
     "Filtering an evaluator produces a new evaluator whose label indices, label names and metadata fields are those of the original, with the rows of unselected datums removed and unselected ground truths or predictions blanked out while their unfiltered counterparts remain as unmatched entries. The original evaluator is unchanged. Filtering that leaves nothing, or a persistent evaluator without a target path, raises an error.",
     ["inputs", "configurations"],
     "every combination of datum, ground truth and prediction filters on every data set",
     "tests apply one or two filters; blanking the wrong column or compacting labels is visible only for particular filter combinations",
     [("filter", "*/evaluator.py Evaluator.filter"), ("label extraction", "*/shared.py extract_labels")],
     [t + "evaluator.Evaluator.filter" for t in (CL, OD, SS)] + [t + "shared.extract_labels" for t in (CL, OD, SS)] + [t + "evaluator.Builder.finalize" for t in (CL, OD, SS)]
     + [t + "evaluator.Builder.__init__" for t in (CL, OD, SS)] + [t + "evaluator.Builder.in_memory" for t in (CL, OD, SS)] + [t + "evaluator.Builder.persistent" for t in (CL, OD, SS)] + [CL + "evaluator.Builder._create_rocauc_intermediate", OD + "evaluator.Builder._rank"])

prop("C10", "Results do not depend on how the data is split into batches, files or chunks",
     "For the same annotations and the same request, every metric, matrix and count is the same whatever batch size, rows per file, number of cache files or number of loading calls was used. Contributions of all chunks are accumulated, and a datum is never divided between chunks in a way that changes its result.",
     ["inputs", "configurations"],
     "every chunking of every data set",
     "tests use data that fits one or two chunks with a fixed batch size",
     [("accumulation over chunks", "*/evaluator.py compute_*"), ("datum-aligned writes", "*/loader.py add_*"), ("chunked ranking", "object_detection/computation.py rank_table, evaluator.py Builder._rank")],
     EVALS + EXTRACT + [CL + "loader.Loader.*", OD + "loader.Loader.*", SS + "loader.Loader.*", OD + "computation.rank_table", OD + "computation.rank_pairs", OD + "computation.calculate_ranking_boundaries", OD + "evaluator.Builder._rank", OD + "evaluator.Builder.finalize",
                        CL + "evaluator.Builder._create_rocauc_intermediate", CL + "evaluator.Builder.finalize", CL + "computation.compute_rocauc", OD + "computation.compute_counts", MW + "write_*", FW + "write_*"] + [t + "shared.extract_labels" for t in (CL, OD, SS)])

prop("C11", "The result at one threshold does not depend on the other thresholds requested",
     "The value reported for a score or IOU threshold is the same whichever other thresholds are requested with it and in whatever order they are given. Each threshold is applied with the same inclusive or exclusive comparison everywhere it is used, and the confusion matrix and the examples reported for one threshold agree with each other.",
     ["inputs"],
     "every list of thresholds in every order, every data set",
     "tests request one or two ascending thresholds; state carried from one threshold to the next needs a particular order and data",
     [("threshold loops", "classification/computation.py compute_counts, compute_pair_classifications"), ("threshold loops", "object_detection/computation.py compute_counts, compute_pair_classifications, mask_pairs_greedily")],
     [CL + "computation.compute_*", OD + "computation.compute_*", OD + "computation.mask_pairs_greedily", OD + "computation._isin", CL + "evaluator.Evaluator.compute_*", OD + "evaluator.Evaluator.compute_*"],
     rules=["threshold_loops_independent"])

prop("C12", "Every metric carries the label and thresholds its value was computed for",
     "Each metric object states the label, score threshold and IOU threshold whose data produced its value, and one metric is reported for every requested combination and every label, none twice. The metric type says what the value is.",
     ["inputs", "configurations"],
     "every label set, threshold list and data set",
     "tests compare a few metrics on tiny label sets where transposed or shifted indices can coincide",
     [("unpacking of result arrays", "*/utilities.py unpack_*"), ("metric constructors", "*/metric.py")],
     [t + "utilities.*" for t in (CL, OD, SS)] + [t + "metric.Metric.*" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.compute_*" for t in (CL, OD, SS)] + ["schemas.BaseMetric.to_dict"],
     classes=[t + "metric.Metric" for t in (CL, OD, SS)] + [t + "metric.MetricType" for t in (CL, OD, SS)] + ["schemas.BaseMetric"])

prop("C13", "Metrics serialise: type, value and parameters become plain JSON values",
     "The dictionary form of every metric of every task contains exactly its type name, value and parameters, built only from plain numbers, strings, booleans, lists and dictionaries, so that it can be written as JSON and read back equal. Array-library scalars or arrays never leak into it.",
     ["inputs"],
     "every metric of every task for every data set",
     "tests mostly compare values with ==, which array scalars also satisfy; leaking types fail only when serialised",
     [("conversion when metrics are built", "*/utilities.py, */metric.py"), ("dictionary form", "schemas.py")],
     [t + "utilities.*" for t in (CL, OD, SS)] + [t + "metric.Metric.*" for t in (CL, OD, SS, TG)] + ["schemas.BaseMetric.to_dict"],
     classes=["schemas.BaseMetric"] + [t + "metric.MetricType" for t in (CL, OD, SS, TG)] + [t + "metric.Metric" for t in (CL, OD, SS, TG)],
     rules=["native_metric_values"])

prop("C14", "Ratios are guarded: always a number within [0, 1], zero when undefined",
     "Precision, recall, F1, accuracy, IOU, average precision, average recall, ROC AUC and their means are numbers between 0 and 1 for every input, and are 0, never NaN, infinite or an error, when their denominator is zero, for example for labels without ground truths or predictions or an evaluator without matching rows.",
     ["inputs"],
     "every data set including empty labels, empty selections and all-background images",
     "tests cover a few empty cases; an unguarded or wrongly guarded division shows only for the label or threshold whose denominator is zero",
     [("guarded divisions", "*/computation.py"), ("text metric ratios", "text_generation/computation.py")],
     [CL + "computation.compute_precision", CL + "computation.compute_recall", CL + "computation.compute_f1_score", CL + "computation.compute_accuracy", CL + "computation.compute_rocauc", CL + "numpy_compatibility.trapezoid",
      OD + "computation.compute_*", SS + "computation.compute_metrics", CL + "utilities.unpack_*", OD + "utilities.unpack_*", SS + "utilities.unpack_*", CL + "evaluator.Evaluator.compute_rocauc", CL + "evaluator.Evaluator.compute_precision_recall",
      OD + "evaluator.Evaluator.compute_precision_recall", SS + "evaluator.Evaluator.compute_precision_recall_iou"],
     rules=["divisions_guarded"])

prop("C15", "Counts are exact for data of any size, from loading to reporting",
     "Counts of pairs, labels, datums and pixels are exact integers for data of any size: they are accumulated without wrap-around, truncation, saturation or rounding from loading to reporting.",
     ["inputs"],
     "every data set size",
     "tests have small counts, which fit every integer width",
     [("dtypes of accumulators and columns", "*/computation.py, */shared.py, */evaluator.py")],
     [CL + "computation.*", OD + "computation.*", SS + "computation.*"] + [t + "shared.generate_*schema" for t in (CL, OD, SS)] + EXTRACT + EVALS + [t + "evaluator.Evaluator.filter" for t in (CL, OD, SS)]
     + [CL + "evaluator.Builder._create_rocauc_intermediate", SS + "loader.Loader.add_data", CL + "loader.Loader.add_data", OD + "loader.Loader._add_data"],
     rules=["wide_counters"])

prop("C16", "Invalid annotations and requests are rejected, valid ones never are",
     "Constructing an annotation whose parts contradict each other (a prediction without one score per label, a ground truth without exactly one label, an empty shape or mask, a mask of the wrong type or shape, an image without pixels), loading a classification without predictions, or requesting a computation without any threshold or without required inputs, raises an error that says so. Every well-formed annotation and request is accepted.",
     ["inputs"],
     "every annotation content and every request argument",
     "tests try one example per check; boundary values and rarely used combinations remain",
     [("construction checks", "*/annotation.py __post_init__"), ("request checks", "*/evaluator.py compute_*"), ("metric type checks", "*/metric.py __post_init__")],
     [CL + "annotation.*", OD + "annotation.*", SS + "annotation.*"] + [x + ":raise" for x in EVALS] + [t + "metric.Metric.__post_init__" for t in (CL, OD, SS, TG)]
     + [t + "evaluator.Evaluator.filter:raise" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.load:raise" for t in (CL, OD, SS)] + [OD + "loader.Loader.*:raise", FR + "load:raise", FW + "create:raise", FW + "delete:raise", "cache.compute.paginate_index:raise"],
     classes=[CL + "annotation.Classification", OD + "annotation.BoundingBox", OD + "annotation.Polygon", OD + "annotation.Bitmask", OD + "annotation.Detection", SS + "annotation.Bitmask", SS + "annotation.Segmentation"])

prop("C17", "Finalizing turns all loaded data into an evaluator, after everything is written",
     "Finalizing flushes all loaded data before anything is counted or ranked, fails on an empty cache, and gives an evaluator that sees every loaded datum. The evaluator obtained from a persisted cache by loading sees the same data, labels and intermediates as the one finalizing returned.",
     ["histories", "configurations"],
     "every sequence of loading calls followed by finalizing or reloading, both backends",
     "tests finalize once after a few loads with buffers that happen to be flushed",
     [("finalize", "*/evaluator.py Builder.finalize"), ("load", "*/evaluator.py Evaluator.load")],
     [t + "evaluator.Builder.*" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.load" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.__init__" for t in (CL, OD, SS)] + [t + "shared.extract_*" for t in (CL, OD, SS)]
     + [t + "shared.generate_*path" for t in (CL, OD, SS)] + [MW + "to_reader", FW + "to_reader", MW + "flush", FW + "flush"] + [t + "loader.Loader.__init__" for t in (CL, OD, SS)])

prop("C18", "Each label name maps to one index and back, consistently across all data",
     "Across all loading calls equal label names get the same index and different names get different indices, and the evaluator's index-to-name mapping is the inverse of it for ground truths and predictions alike. A label known from an override keeps its index even when no row mentions it.",
     ["inputs", "histories"],
     "every sequence of labels in every loading order",
     "tests load few labels, mostly in one call",
     [("index assignment", "*/loader.py Loader._add_label"), ("mapping recovery", "*/shared.py extract_labels")],
     [t + "loader.Loader._add_label" for t in (CL, OD, SS)] + [t + "shared.extract_labels" for t in (CL, OD, SS)] + [t + "loader.Loader.__init__" for t in (CL, OD, SS)]
     + [CL + "loader.Loader.add_data", OD + "loader.Loader._add_data", OD + "loader.Loader.add_*", SS + "loader.Loader.add_data"] + [t + "evaluator.Builder.finalize" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.load" for t in (CL, OD, SS)])

prop("C19", "Evaluation is read-only: it changes neither the data nor later results",
     "Computing metrics, listing examples or reading an evaluator's summary writes nothing to the cache, mutates no argument and leaves no state behind, so that repeating a request in any order with other requests gives equal results. Input annotations are not modified by loading them, except that overlapping masks are resolved when an annotation is constructed.",
     ["histories", "inputs"],
     "every sequence of requests on every evaluator",
     "tests issue each request once on a fresh evaluator",
     [("evaluator methods", "*/evaluator.py Evaluator"), ("pure kernels", "*/computation.py")],
     [x + ":mut,effect" for x in EVALS] + [CL + "computation.*:mut,effect", OD + "computation.*:mut,effect", SS + "computation.*:mut,effect"] + [t + "evaluator.Evaluator.get_info:mut,effect" for t in (CL, OD, SS)]
     + [t + "evaluator.Evaluator.filter:mut,effect" for t in (CL, OD, SS)] + [CL + "loader.Loader.add_data:mut", OD + "loader.Loader.add_*:mut", SS + "loader.Loader.add_data:mut"] + [t + "utilities.*:mut,effect" for t in (CL, OD, SS)] + [t + "shared.*:mut,effect" for t in (CL, OD, SS)] + [MR + "*:mut,effect", FR + "*:mut,effect"],
     rules=["evaluation_read_only"])

# ------------------------------------------------------------------ classification
prop("C20", "Classification loading records every label and score of every datum",
     "For each loaded classification the cache holds one row per predicted label with its score and one ground truth label, marking which row matches the ground truth and which row is the winning prediction (the highest score), together with the datum id, uid and metadata. Loading the same data in several calls records the same rows with increasing datum ids.",
     ["inputs", "histories"],
     "every classification, including ground truth labels that are not predicted and tied scores",
     "tests load a few hand-written classifications",
     [("row construction", "classification/loader.py Loader.add_data"), ("schema", "classification/shared.py generate_schema")],
     [CL + "loader.Loader.*", CL + "shared.generate_schema", CL + "annotation.*", MW + "write_rows", FW + "write_rows"], classes=[CL + "annotation.Classification"],
     rules=["rows_match_schema"])

prop("C21", "Classification counts and their ratios follow their definitions",
     "At each score threshold a prediction counts as true positive when its label is the ground truth and its score reaches the threshold (and, under hardmax, it is the winning label), as false positive when it reaches the threshold with a wrong label, and a ground truth that is not matched is a false negative. Precision, recall and F1 per label and accuracy over datums are the standard ratios of those counts.",
     ["inputs"],
     "every set of classifications, score thresholds and hardmax setting",
     "tests check a few examples with well-separated scores",
     [("counting", "classification/computation.py compute_counts"), ("ratios", "classification/computation.py compute_precision, compute_recall, compute_f1_score, compute_accuracy"), ("assembly", "classification/evaluator.py compute_precision_recall")],
     [CL + "computation.compute_counts", CL + "computation.compute_precision", CL + "computation.compute_recall", CL + "computation.compute_f1_score", CL + "computation.compute_accuracy",
      CL + "evaluator.Evaluator.compute_precision_recall", CL + "evaluator.Evaluator.iterate_values", CL + "utilities.unpack_precision_recall", CL + "shared.extract_*", CL + "metric.Metric.*"], classes=[CL + "metric.Metric"])

prop("C22", "ROC AUC uses every prediction once, ranked by descending score per label",
     "The ROC curve of a label is built from all predictions for that label ordered by descending score, with cumulative true and false positive rates relative to the number of datums with and without that label, and the reported area is the integral of that curve. The mean is taken over labels.",
     ["inputs", "configurations"],
     "every set of classifications and every chunking of the ranked rows",
     "tests compare a few examples; ordering and chunk-boundary faults need ties or many rows",
     [("ranking intermediate", "classification/evaluator.py Builder._create_rocauc_intermediate"), ("curve and area", "classification/computation.py compute_rocauc"), ("driver", "classification/evaluator.py compute_rocauc")],
     [CL + "evaluator.Builder._create_rocauc_intermediate", CL + "evaluator.Builder.finalize", CL + "evaluator.Evaluator.compute_rocauc", CL + "computation.compute_rocauc", CL + "numpy_compatibility.*", CL + "utilities.unpack_rocauc",
      CL + "shared.extract_*", CL + "shared.generate_*", "cache.compute.*", CL + "evaluator.Evaluator.load", CL + "metric.Metric.roc_auc", CL + "metric.Metric.mean_roc_auc"])

prop("C23", "Classification confusion matrix and examples account for every datum once",
     "At each score threshold every datum with a qualifying prediction is counted in the cell of its ground truth and predicted labels, and every ground truth without one is counted as unmatched, never both. The example listing and the matrix with examples contain exactly the datums behind those counts, with scores and ids intact.",
     ["inputs"],
     "every set of classifications, thresholds and hardmax setting",
     "tests check a few matrices; double counting or dropping needs particular score and threshold relations",
     [("pair classes", "classification/computation.py compute_pair_classifications"), ("matrix", "classification/computation.py compute_confusion_matrix"), ("unpacking", "classification/utilities.py")],
     [CL + "computation.compute_pair_classifications", CL + "computation.compute_confusion_matrix", CL + "evaluator.Evaluator.compute_confusion_matrix", CL + "evaluator.Evaluator.compute_examples",
      CL + "evaluator.Evaluator.compute_confusion_matrix_with_examples", CL + "evaluator.Evaluator.iterate_values", CL + "utilities.*", CL + "metric.Metric.confusion_matrix*", CL + "metric.Metric.examples"],
     classes=[CL + "computation.PairClassification"])

# ------------------------------------------------------------------ object detection
prop("C30", "IOU is intersection over union for boxes, polygons and masks alike",
     "The overlap of a ground truth with a prediction is the area of their intersection divided by the area of their union, between 0 and 1, the same in either order, 1 only for coinciding shapes and 0 for disjoint ones, for bounding boxes, polygons and bitmasks.",
     ["inputs"],
     "every pair of shapes including touching, nested and empty ones",
     "tests use a few overlapping pairs",
     [("IOU kernels", "object_detection/computation.py compute_bbox_iou, compute_bitmask_iou, compute_polygon_iou"), ("extrema", "object_detection/annotation.py BoundingBox.extrema")],
     [OD + "computation.compute_bbox_iou", OD + "computation.compute_bitmask_iou", OD + "computation.compute_polygon_iou", OD + "annotation.BoundingBox.*", OD + "annotation.Polygon.*", OD + "annotation.Bitmask.*", OD + "loader.Loader.add_*"])

prop("C31", "Object detection loading records every pair and every unmatched annotation",
     "For each loaded datum every ground truth and every prediction appears in the cache: pairs with positive overlap carry their IOU, score and labels, and an annotation without any overlapping counterpart is recorded alone. A datum with annotations on one side only is recorded too, and ids, labels and metadata belong to the annotation they are stored with.",
     ["inputs", "histories"],
     "every datum with any number of ground truths and predictions, including none, and predictions with several labels",
     "tests load a few hand-made detections; a dropped or mislabelled row needs a particular combination of empty sides and multi-label predictions",
     [("row construction", "object_detection/loader.py Loader._add_data"), ("entry points", "object_detection/loader.py add_bounding_boxes, add_polygons, add_bitmasks"), ("schema", "object_detection/shared.py generate_detailed_schema")],
     [OD + "loader.Loader.*", OD + "shared.generate_detailed_schema", OD + "annotation.*", OD + "computation.compute_*_iou", MW + "write_*", FW + "write_*"],
     classes=[OD + "annotation.Detection", OD + "annotation.BoundingBox", OD + "annotation.Polygon", OD + "annotation.Bitmask"],
     rules=["rows_match_schema"])

prop("C32", "Detections are ranked by score and matched one-to-one with ground truths",
     "Each prediction is credited with at most one ground truth, the best overlapping one of its label, and of the predictions competing for a ground truth at an IOU threshold only the highest scoring one that reaches the threshold counts as its match, so nothing is matched twice. Ranked pairs are ordered by descending score and then overlap over the whole data set, and ranking keeps every prediction.",
     ["inputs", "configurations"],
     "every set of detections, ties and chunkings",
     "tests rank a few pairs; double matching needs competing predictions in particular score and IOU orders",
     [("ranking", "object_detection/computation.py rank_pairs, rank_table, calculate_ranking_boundaries"), ("driver", "object_detection/evaluator.py Builder._rank"), ("greedy mask", "object_detection/computation.py mask_pairs_greedily")],
     [OD + "computation.rank_*", OD + "computation.calculate_ranking_boundaries", OD + "computation.mask_pairs_greedily", OD + "computation._isin", OD + "evaluator.Builder._rank", OD + "evaluator.Builder.finalize",
      OD + "shared.generate_ranked_schema", OD + "shared.extract_*", "cache.compute.*", MR + "iterate_tables", FR + "iterate_tables", MW + "sort_by", FW + "sort_by"])

prop("C33", "Detection counts and precision-recall metrics follow their definitions",
     "At each IOU and score threshold true positives are the matched pairs that share a label and reach both thresholds, false positives the remaining predictions that reach the score threshold, and false negatives the remaining ground truths. Precision, recall, F1, average precision from the interpolated precision-recall curve, average recall and their means over labels, IOUs and scores are the standard functions of those counts.",
     ["inputs"],
     "every set of detections, thresholds and label set",
     "tests compare a few examples; threshold boundaries and averages over labels with no data need particular inputs",
     [("counting", "object_detection/computation.py compute_counts"), ("metrics", "object_detection/computation.py compute_precision_recall_f1, compute_average_recall, compute_average_precision"), ("assembly", "object_detection/evaluator.py compute_precision_recall")],
     [OD + "computation.compute_counts", OD + "computation.compute_precision_recall_f1", OD + "computation.compute_average_recall", OD + "computation.compute_average_precision", OD + "evaluator.Evaluator.compute_precision_recall",
      OD + "utilities.unpack_precision_recall_into_metric_lists", OD + "metric.Metric.*", OD + "shared.extract_*"], classes=[OD + "metric.Metric"])

prop("C34", "The detection confusion matrix accounts for each annotation exactly once",
     "At each threshold pair every ground truth is a match, a misclassification or unmatched, and every prediction that reaches the score threshold is a match, a misclassification or unmatched, never more than one of these (a prediction with several labels is accounted for once per label). The example listing and the matrix with examples contain exactly the annotations behind those counts.",
     ["inputs"],
     "every set of detections and thresholds",
     "tests check a few matrices; overlapping classes of a pair need particular combinations of labels, scores and overlaps",
     [("pair classes", "object_detection/computation.py compute_pair_classifications, mask_pairs_greedily"), ("matrix", "object_detection/computation.py compute_confusion_matrix"), ("unpacking", "object_detection/utilities.py")],
     [OD + "computation.compute_pair_classifications", OD + "computation.compute_confusion_matrix", OD + "computation.mask_pairs_greedily", OD + "computation._isin", OD + "evaluator.Evaluator.compute_confusion_matrix*", OD + "evaluator.Evaluator.compute_examples",
      OD + "utilities.unpack_confusion_matrix*", OD + "utilities._unpack*", OD + "utilities.create_*", OD + "utilities.unpack_examples", OD + "metric.Metric.confusion_matrix*", OD + "metric.Metric.examples"],
     classes=[OD + "computation.PairClassification"])

# ------------------------------------------------------------------ segmentation
prop("C40", "Every pixel is counted exactly once in the segmentation confusion counts",
     "For each loaded segmentation the recorded counts over all pairs of ground truth and predicted label, including background, sum to the number of pixels of the image, each pixel being counted in the cell of its labels. Overlapping masks on one side are resolved so that a pixel has at most one label per side, keeping the later mask's share consistent.",
     ["inputs"],
     "every pair of mask lists including overlapping, empty and repeated labels",
     "tests use disjoint masks with distinct labels",
     [("pixel counts", "semantic_segmentation/computation.py compute_intermediates"), ("overlap resolution", "semantic_segmentation/annotation.py"), ("rows", "semantic_segmentation/loader.py Loader.add_data")],
     [SS + "computation.compute_intermediates", SS + "annotation.*", SS + "loader.Loader.*", SS + "shared.generate_schema", SS + "shared.extract_*", SS + "evaluator.Evaluator._compute_confusion_matrix_intermediate", MW + "write_*", FW + "write_*"], classes=[SS + "annotation.Bitmask", SS + "annotation.Segmentation"],
     rules=["rows_match_schema"])

prop("C41", "Segmentation metrics are the standard functions of the pixel counts",
     "Precision, recall, F1 and IOU of a label, mean IOU over labels, pixel accuracy, and the confusion matrix with its unmatched fractions are the standard functions of the accumulated pixel counts, with background handled separately from the labels.",
     ["inputs"],
     "every set of pixel counts",
     "tests check a few images",
     [("metrics", "semantic_segmentation/computation.py compute_metrics"), ("accumulation", "semantic_segmentation/evaluator.py"), ("unpacking", "semantic_segmentation/utilities.py")],
     [SS + "computation.compute_metrics", SS + "evaluator.Evaluator._compute_confusion_matrix_intermediate", SS + "evaluator.Evaluator.compute_precision_recall_iou", SS + "utilities.*", SS + "metric.Metric.*", SS + "shared.extract_counts", SS + "evaluator.Evaluator.get_info"],
     classes=[SS + "metric.Metric", SS + "metric.MetricType", SS + "shared.EvaluatorInfo"])

# ------------------------------------------------------------------ text generation
prop("C50", "A model response is scored only if it has exactly the requested form",
     "A response that is not a JSON object with the requested entry, whose entries are of the wrong type, count or vocabulary, or that is empty, is reported as an invalid response and never scored. Well-formed responses are accepted, also when surrounded by other text.",
     ["inputs", "fault_sequences"],
     "every response text a language model can return",
     "tests feed a few malformed responses",
     [("JSON extraction", "text_generation/llm/utilities.py trim_and_load_json"), ("validation", "text_generation/llm/validators.py"), ("use", "text_generation/llm/generation.py")],
     [TG + "llm.utilities.*", TG + "llm.validators.*", TG + "llm.generation.*", TG + "llm.integrations.*"])

prop("C51", "An invalid response is retried as configured, then reported as an error metric",
     "A request whose response is invalid is repeated until it succeeds or the configured (non-negative) number of retries is used up, and the first valid response is used. When all attempts fail with an invalid response the metric is reported as an error metric with the reason instead of raising, and any other failure, such as an argument error, is not disguised as a metric.",
     ["fault_sequences", "configurations"],
     "every sequence of valid and invalid responses and every retry setting",
     "tests simulate one or two failures",
     [("generation", "text_generation/llm/generation.py _generate"), ("metric wrapper", "text_generation/manager.py llm_guided_metric")],
     [TG + "manager.llm_guided_metric", TG + "manager.Evaluator.__init__", TG + "manager.Evaluator.openai", TG + "manager.Evaluator.mistral", TG + "llm.generation._generate", TG + "manager.Evaluator.compute_*:effect,raise,sig", TG + "metric.Metric.error", TG + "llm.integrations.*", TG + "llm.generation.*:sig,effect"],
     rules=["retry_decorated"])

prop("C52", "Prompts contain every input and ask for the entries that are then validated",
     "Each prompt sent to the model contains all of the inputs the judgement is about, in their own roles, and asks for a JSON object with the entry the response is checked for and read from. Lists of statements, claims, contexts or opinions are passed completely.",
     ["inputs"],
     "every query, response, context and ground truth text",
     "tests use fixed strings and a mock client that ignores the prompt",
     [("instructions", "text_generation/llm/instructions.py"), ("generation", "text_generation/llm/generation.py")],
     [TG + "llm.instructions.*", TG + "llm.generation.*"],
     rules=["prompt_keys_agree"])

prop("C53", "Text metric values are the stated fractions of the model's verdicts",
     "Answer correctness, answer relevance, bias, context precision, context recall, context relevance, faithfulness, hallucination, summary coherence and toxicity are computed from all verdicts for all statements or contexts, each verdict counted once, with the outcome that is good or bad for that metric in the numerator. With nothing to judge they take their defined value, without dividing by zero.",
     ["inputs"],
     "every list of verdicts including empty ones",
     "tests use a few mocked verdict lists",
     [("calculation", "text_generation/computation.py")],
     [TG + "computation.*", TG + "llm.generation.generate_*"],
     rules=["text_divisions_guarded"])

prop("C54", "Each text metric is computed from its own inputs and reported under its own name",
     "Every metric computation passes the query, response, contexts and ground truths of the request to the matching calculation and reports the result under the metric's own type with the model name and parameters used, and computing several metrics returns one result for each requested type. A request that lacks the contexts or ground truths a metric needs raises an error instead of being scored.",
     ["inputs", "configurations"],
     "every request and every selection of metrics",
     "tests call each metric with one fixed example where swapped inputs can give the same mocked result",
     [("metric methods", "text_generation/manager.py"), ("metric constructors", "text_generation/metric.py")],
     [TG + "manager.*", TG + "metric.Metric.*", TG + "computation.*:sig"], classes=[TG + "metric.Metric", TG + "metric.MetricType", TG + "annotation.Context", TG + "annotation.QueryResponse", "schemas.BaseMetric"])

prop("C55", "Model clients send validated messages and refuse truncated or filtered answers",
     "Messages are checked before they are sent, are sent completely with the configured model and seed, and the answer text is returned unchanged while its token counts are added to the totals. An answer the provider reports as cut off or filtered raises an error instead of being returned.",
     ["inputs", "fault_sequences"],
     "every message list and every response of the provider",
     "tests use mocked clients with a few finish reasons",
     [("message validation", "text_generation/llm/integrations.py _validate_messages"), ("wrappers", "text_generation/llm/integrations.py OpenAIWrapper, MistralWrapper")],
     [TG + "llm.integrations.*", TG + "manager.Evaluator.openai", TG + "manager.Evaluator.mistral", TG + "llm.generation._generate"])


LOADERS = [CL + "loader.Loader.add_data", OD + "loader.Loader._add_data", SS + "loader.Loader.add_data"]
# functions whose behaviour the statement also depends on
MORE = {
    "C07": [t + "utilities.*" for t in (CL, OD)],
    "C04": [t + "evaluator.Evaluator.filter" for t in (CL, OD, SS)],
    "C08": [CL + "evaluator.Builder._create_rocauc_intermediate", "cache.compute.*"] + LOADERS,
    "C09": [t + "shared.*" for t in (CL, OD, SS)] + LOADERS + ["cache.ephemeral.MemoryCacheWriter.write_table", "cache.persistent.FileCacheWriter.write_table"],
    "C10": READERS + ["cache.compute.*", CL + "computation.*", OD + "computation.*"] + [t + "utilities.*" for t in (CL, OD, SS)],
    "C11": [t + "utilities.*" for t in (CL, OD)],
    "C12": [t + "computation.compute_*" for t in (CL, OD, SS)],
    "C14": [t + "utilities.unpack_*" for t in (CL, OD, SS)],
    "C15": [t + "utilities.*" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.get_info" for t in (CL, OD, SS)] + [CL + "metric.Metric.counts", OD + "metric.Metric.counts"],
    "C16": [t + "shared.generate_*schema" for t in (CL, OD, SS)],
    "C17": [t + "shared.generate_*" for t in (CL, OD, SS)],
    "C18": [t + "utilities.unpack_*" for t in (CL, OD, SS)] + [t + "evaluator.Evaluator.__init__" for t in (CL, OD, SS)] + [t + "evaluator.Builder.__init__" for t in (CL, OD, SS)],
    "C20": [CL + "shared.generate_schema", CL + "evaluator.Builder.__init__", CL + "annotation.*"],
    "C21": [CL + "loader.Loader.add_data"],
    "C22": [CL + "loader.Loader.add_data"],
    "C23": [CL + "loader.Loader.add_data"],
    "C33": [OD + "evaluator.Builder._rank", OD + "computation.rank_*", OD + "computation.calculate_ranking_boundaries"],
    "C41": [SS + "computation.compute_intermediates"],
    "C54": [TG + "computation.*"],
}
for p in P:
    p["funcs"] += [f for f in MORE.get(p["id"], ()) if f not in p["funcs"]]

# ------------------------------------------------------------------ outside static analysis
NA = []


def na(id, title, statement, over, q, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, reason=reason))


na("N01", "Average precision equals the reference COCO implementation numerically",
   "For every data set the reported average precision and average recall equal, within rounding, those of the reference COCO evaluation.",
   ["inputs"], "every detection data set", "tests compare a few data sets",
   ["src/valor_lite/object_detection/computation.py"], [("average precision", "compute_average_precision")],
   "numerical equality with an external program over all inputs; no static argument in reach bounds it (the formulas themselves are decided under C33)")
na("N02", "ROC AUC equals the probability that a positive outranks a negative",
   "For every data set ROC AUC equals the probability that a randomly chosen positive scores above a randomly chosen negative, ties counting half.",
   ["inputs"], "every set of scores including ties", "tests compare a few examples",
   ["src/valor_lite/classification/computation.py"], [("curve integration", "compute_rocauc")],
   "a statistical identity over runtime score values, including ties; only the construction of the curve is visible in the code (C22)")
na("N03", "BLEU and ROUGE equal their reference implementations",
   "For every pair of texts the BLEU and ROUGE values equal those of the reference implementations.",
   ["inputs"], "every pair of texts", "tests compare a few sentences",
   ["src/valor_lite/text_generation/computation.py"], [("delegation", "calculate_rouge_scores, calculate_sentence_bleu")],
   "the values are computed inside third-party libraries that are not part of this repository; the arguments passed to them are decided under C53")
na("N04", "A crash while writing leaves a cache that is either readable or rejected",
   "If the process dies while an on-disk cache is being written, opening it later either yields a prefix of the written rows or fails.",
   ["crash_points"], "every crash point during writing", "no test crashes a writer",
   ["src/valor_lite/cache/persistent.py"], [("file writer", "FileCacheWriter")],
   "the code makes no durability promise (no sync, no atomic rename) and the outcome depends on the Parquet library and the file system at run time")
na("N05", "Memory use is bounded by the batch size rather than the data set",
   "Evaluating an on-disk cache needs memory proportional to the batch size and label count, not to the number of rows.",
   ["inputs", "configurations"], "every data set size", "benchmarks sample a few sizes",
   ["src/valor_lite/cache/compute.py", "src/valor_lite/object_detection/evaluator.py"], [("streaming", "iterate_tables, _merge")],
   "a bound on a runtime quantity that depends on the Arrow and Parquet libraries' buffering")
