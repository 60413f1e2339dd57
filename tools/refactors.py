"""Behaviour-preserving edits used to look for false alarms (see refactor.py)."""
ALL = []


def R(name, file, *edits):
    ALL.append((name, file, edits))


# ---------------------------------------------------------------- cache
R("merge-helper", "cache/compute.py", (
"""        if table_sort_override is not None:
            sorted_tbl = table_sort_override(tbl)
        else:
            sorted_tbl = tbl.sort_by(sorting)
        intermediate_sink.write_table(sorted_tbl)
""", """        intermediate_sink.write_table(_sort_table(tbl, sorting, table_sort_override))
"""), ("def _merge(", """def _sort_table(tbl, sorting, table_sort_override=None):
    if table_sort_override is None:
        return tbl.sort_by(sorting)
    return table_sort_override(tbl)

def _merge("""), ("""            if table_sort_override is not None:
                sorted_tbl = table_sort_override(tbl)
            else:
                sorted_tbl = tbl.sort_by(sorting)
            sink.write_table(sorted_tbl)
""", """            sink.write_table(_sort_table(tbl, sorting, table_sort_override))
"""))
R("merge-key-loop", "cache/compute.py", (
"""        args = [-batches[batch_idx][name][row_idx].as_py() if direction == 'descending' else batches[batch_idx][name][row_idx].as_py() for name, direction in sorting]
        return (*args, batch_idx, row_idx)
""", """        batch = batches[batch_idx]
        key = []
        for name, direction in sorting:
            value = batch[name][row_idx].as_py()
            if direction == 'descending':
                value = -value
            key.append(value)
        key.append(batch_idx)
        key.append(row_idx)
        return tuple(key)
"""))
R("merge-first-batch", "cache/compute.py", (
"""        batch_iterators.append(batch_iter)
        batches.append(next(batch_iterators[batch_idx], None))
        if batches[batch_idx] is not None and len(batches[batch_idx]) > 0:
            heap.append(create_sort_key(batches, batch_idx, 0))
""", """        first = next(batch_iter, None)
        batch_iterators.append(batch_iter)
        batches.append(first)
        if first is None or len(first) == 0:
            continue
        heap.append(create_sort_key(batches, batch_idx, 0))
"""))
R("paginate-vars", "cache/compute.py", (
"""        condition = pc.scalar(True)
        if prev_idx < offset and curr_idx > offset:
            condition &= pc.field(column_key) >= unique_values[offset - prev_idx]
        if prev_idx < offset + limit and curr_idx > offset + limit:
            condition &= pc.field(column_key) < unique_values[offset + limit - prev_idx]
""", """        condition = pc.scalar(True)
        end = offset + limit
        if prev_idx < offset < curr_idx:
            condition = condition & (pc.field(column_key) >= unique_values[offset - prev_idx])
        if prev_idx < end < curr_idx:
            condition = condition & (pc.field(column_key) < unique_values[end - prev_idx])
"""))
R("paginate-yieldfrom", "cache/compute.py", (
"""        for tbl in source.iterate_tables(filter=modifier):
            yield tbl
        return
    elif offset >= total:
        return
""", """        yield from source.iterate_tables(filter=modifier)
        return
    if offset >= total:
        return
"""), ("""    limit = limit if limit else total
""", """    if not limit:
        limit = total
"""))
R("paginate-break", "cache/compute.py", (
"""        if curr_idx <= offset:
            continue
        elif prev_idx >= offset + limit:
            return
""", """        if offset + limit <= prev_idx:
            break
        if offset >= curr_idx:
            continue
"""))
R("get-files-comp", "cache/persistent.py", (
"""        files = []
        for entry in os.listdir(self._path):
            full_path = os.path.join(self._path, entry)
            if os.path.isfile(full_path):
                files.append(Path(full_path))
        return files
""", """        candidates = (os.path.join(self._path, entry) for entry in os.listdir(self._path))
        return [Path(candidate) for candidate in candidates if os.path.isfile(candidate)]
"""))
R("write-batch-guard", "cache/persistent.py", (
"""        size = batch.num_rows
        if self._buffer:
            size += sum([b.num_rows for b in self._buffer])
""", """        size = batch.num_rows + sum((b.num_rows for b in self._buffer))
"""))
R("write-batch-helper", "cache/persistent.py", (
"""        size = batch.num_rows
        if self._buffer:
            size += sum([b.num_rows for b in self._buffer])
""", """        size = batch.num_rows + self._buffered_rows()
"""), ("    def write_table(self, table: pa.Table):", """    def _buffered_rows(self) -> int:
        total = 0
        for buffered in self._buffer:
            total += buffered.num_rows
        return total

    def write_table(self, table: pa.Table):"""))
R("write-batch-else", "cache/persistent.py", (
"""        if size < self.batch_size and self._count < self.rows_per_file:
            self._buffer.append(batch)
            return
        if self._buffer:
            self._buffer.append(batch)
            batch = pa.concat_batches(self._buffer)
            self._buffer = []
        writer = self._get_or_create_writer()
        writer.write_batch(batch)
        self._count += size
        if self._count >= self.rows_per_file:
            self.flush()
""", """        if size >= self.batch_size or self._count >= self.rows_per_file:
            if self._buffer:
                self._buffer.append(batch)
                batch = pa.concat_batches(self._buffer)
                self._buffer = []
            self._get_or_create_writer().write_batch(batch)
            self._count = self._count + size
            if not self._count < self.rows_per_file:
                self.flush()
        else:
            self._buffer.append(batch)
"""))
R("next-filename", "cache/persistent.py", (
"""        files = self.get_dataset_files()
        if not files:
            next_index = 0
        else:
            next_index = max([int(Path(f).stem) for f in files]) + 1
        return self._path / f'{next_index:06d}.parquet'
""", """        next_index = 0
        files = self.get_dataset_files()
        if files:
            next_index = 1 + max((int(Path(f).stem) for f in files))
        filename = f'{next_index:06d}.parquet'
        return self._path / filename
"""))
R("flush-local", "cache/persistent.py", (
"""            combined_arrays = [pa.concat_arrays([b.column(name) for b in self._buffer]) for name in self._schema.names]
            batch = pa.RecordBatch.from_arrays(combined_arrays, schema=self._schema)
            writer = self._get_or_create_writer()
            writer.write_batch(batch)
""", """            combined_arrays = []
            for name in self._schema.names:
                columns = [b.column(name) for b in self._buffer]
                combined_arrays.append(pa.concat_arrays(columns))
            batch = pa.RecordBatch.from_arrays(combined_arrays, schema=self._schema)
            self._get_or_create_writer().write_batch(batch)
"""))
R("load-positional", "cache/persistent.py", (
"""        cfg_path = cls._generate_config_path(path)
        with open(cfg_path, 'r') as f:
            cfg = json.load(f)
            batch_size = _retrieve(cfg, 'batch_size')
            rows_per_file = _retrieve(cfg, 'rows_per_file')
            compression = _retrieve(cfg, 'compression')
            schema = cls._decode_schema(_retrieve(cfg, 'schema'))
        return cls(schema=schema, path=path, batch_size=batch_size, rows_per_file=rows_per_file, compression=compression)
""", """        with open(cls._generate_config_path(path), 'r') as f:
            cfg = json.load(f)
        compression = _retrieve(cfg, 'compression')
        return cls(path=path, schema=cls._decode_schema(_retrieve(cfg, 'schema')), batch_size=_retrieve(cfg, 'batch_size'), rows_per_file=_retrieve(cfg, 'rows_per_file'), compression=compression)
"""))
R("delete-early", "cache/persistent.py", (
"""        for file in reader.get_dataset_files():
            if file.exists() and file.is_file() and (file.suffix == '.parquet'):
                file.unlink()
""", """        for file in reader.get_dataset_files():
            if not (file.exists() and file.is_file()):
                continue
            if file.suffix != '.parquet':
                continue
            file.unlink()
"""))
R("columns-union", "cache/persistent.py", (
"""        _columns = set(columns) if columns else set()
        _numeric_columns = set(numeric_columns) if numeric_columns else set()
        columns = list(_columns.union(_numeric_columns)) or None
""", """        selected = set(columns or [])
        selected |= set(numeric_columns or [])
        columns = list(selected) if selected else None
"""))
R("mem-iterate", "cache/ephemeral.py", (
"""        table = self._table
        if filter is not None:
            table = table.filter(filter)
        if columns is not None:
            table = table.select(columns)
        yield table
""", """        filtered = self._table if filter is None else self._table.filter(filter)
        yield (filtered if columns is None else filtered.select(columns))
"""))
R("mem-flush-helper", "cache/ephemeral.py", (
"""            combined_arrays = [pa.concat_arrays([b.column(name) for b in self._buffer]) for name in self.schema.names]
            batch = pa.RecordBatch.from_arrays(combined_arrays, schema=self.schema)
""", """            batch = self._combine_buffer()
"""), ("    def write_table(self, table: pa.Table):", """    def _combine_buffer(self) -> pa.RecordBatch:
        arrays = [pa.concat_arrays([b.column(name) for b in self._buffer]) for name in self.schema.names]
        return pa.RecordBatch.from_arrays(arrays, schema=self.schema)

    def write_table(self, table: pa.Table):"""))
R("mem-flush-return", "cache/ephemeral.py", (
"""        if self._buffer:
            combined_arrays = [pa.concat_arrays([b.column(name) for b in self._buffer]) for name in self.schema.names]
            batch = pa.RecordBatch.from_arrays(combined_arrays, schema=self.schema)
            self._table = pa.concat_tables([self._table, pa.Table.from_batches([batch])])
            self._buffer = []
""", """        if not self._buffer:
            return
        names = self.schema.names
        combined_arrays = [pa.concat_arrays([b.column(n) for b in self._buffer]) for n in names]
        batch = pa.RecordBatch.from_arrays(combined_arrays, schema=self.schema)
        flushed = pa.Table.from_batches([batch])
        self._buffer = []
        self._table = pa.concat_tables([self._table, flushed])
"""))
# ---------------------------------------------------------------- classification
R("clf-counts-tuple-loop", "classification/computation.py", (
"""    for score_idx in range(n_scores):
        mask_score_threshold = scores >= score_thresholds[score_idx]
        mask_score = mask_score_nonzero & mask_score_threshold
        if hardmax:
            mask_score &= mask_hardmax
        mask_tp""", """    for score_idx, threshold in enumerate(score_thresholds):
        mask_score = (scores >= threshold) & mask_score_nonzero
        if hardmax:
            mask_score = mask_score & mask_hardmax
        mask_tp"""))
R("clf-counts-demorgan", "classification/computation.py", (
"""        mask_fn = mask_matching_labels & ~mask_score | mask_fp
        mask_tn = ~mask_matching_labels & ~mask_score
        mask_fn &= mask_valid_gts
        mask_fp &= mask_valid_pds
""", """        mask_tn = ~(mask_matching_labels | mask_score)
        mask_fn = mask_valid_gts & ((mask_matching_labels & ~mask_score) | mask_fp)
        mask_fp = mask_valid_pds & mask_fp
"""))
R("clf-counts-helper", "classification/computation.py", (
"""        counts[score_idx, :, 0] = np.bincount(pd_labels[mask_tp], minlength=n_labels)
        counts[score_idx, :, 1] = np.bincount(pd_labels[mask_fp], minlength=n_labels)
        counts[score_idx, :, 2] = np.bincount(fn[:, 1], minlength=n_labels)
        counts[score_idx, :, 3] = np.bincount(tn[:, 1], minlength=n_labels)
""", """        per_label = (pd_labels[mask_tp], pd_labels[mask_fp], fn[:, 1], tn[:, 1])
        for slot, labels in enumerate(per_label):
            counts[score_idx, :, slot] = np.bincount(labels, minlength=n_labels)
"""))
R("clf-precision-denominator", "classification/computation.py", (
"""    np.divide(counts[:, :, 0], counts[:, :, 0] + counts[:, :, 1], where=counts[:, :, 0] + counts[:, :, 1] > 0, out=precision)
""", """    tp = counts[:, :, 0]
    total = tp + counts[:, :, 1]
    np.divide(tp, total, out=precision, where=total > 0)
"""), ("""    np.divide(counts[:, :, 0], counts[:, :, 0] + counts[:, :, 2], where=counts[:, :, 0] + counts[:, :, 2] > 0, out=recall)
""", """    tp, fn = counts[..., 0], counts[..., 2]
    np.divide(tp, tp + fn, out=recall, where=(tp + fn) != 0)
"""))
R("clf-ratio-helper", "classification/computation.py", (
"""    precision = np.zeros((n_scores, n_labels), dtype=np.float64)
    np.divide(counts[:, :, 0], counts[:, :, 0] + counts[:, :, 1], where=counts[:, :, 0] + counts[:, :, 1] > 0, out=precision)
    return precision
""", """    return _safe_ratio(counts[:, :, 0], counts[:, :, 0] + counts[:, :, 1], (n_scores, n_labels))
"""), ("def compute_precision(", """def _safe_ratio(numerator, denominator, shape):
    result = np.zeros(shape, dtype=np.float64)
    np.divide(numerator, denominator, where=denominator > 0, out=result)
    return result

def compute_precision("""))
R("clf-f1-order", "classification/computation.py", (
"""    f1_score = np.zeros_like(recall)
    np.divide(2 * precision * recall, precision + recall, where=precision + recall > 1e-09, out=f1_score)
    return f1_score
""", """    denominator = recall + precision
    f1_score = np.zeros_like(recall)
    np.divide(precision * recall * 2, denominator, where=denominator > 1e-09, out=f1_score)
    return f1_score
"""))
R("clf-accuracy", "classification/computation.py", (
"""    accuracy = np.zeros(n_scores, dtype=np.float64)
    if n_datums == 0:
        return accuracy
    np.divide(counts[:, :, 0].sum(axis=1), n_datums, out=accuracy)
    return accuracy
""", """    if n_datums == 0:
        return np.zeros(n_scores, dtype=np.float64)
    return np.sum(counts[:, :, 0], axis=1) / n_datums
"""))
R("clf-pair-direct", "classification/computation.py", (
"""    pair_classifications = np.zeros((n_scores, n_pairs), dtype=np.uint8)
""", """    mask_tp = np.zeros((n_scores, n_pairs), dtype=np.bool_)
    mask_fp_fn_misclf = np.zeros((n_scores, n_pairs), dtype=np.bool_)
    mask_fn_unmatched = np.zeros((n_scores, n_pairs), dtype=np.bool_)
"""), ("""        pair_classifications[score_idx, mask_true_positives] |= np.uint8(PairClassification.TP)
        pair_classifications[score_idx, mask_misclassifications] |= np.uint8(PairClassification.FP_FN_MISCLF)
        pair_classifications[score_idx, mask_unmatched_groundtruths] |= np.uint8(PairClassification.FN_UNMATCHED)
    mask_tp = np.bitwise_and(pair_classifications, PairClassification.TP) > 0
    mask_fp_fn_misclf = np.bitwise_and(pair_classifications, PairClassification.FP_FN_MISCLF) > 0
    mask_fn_unmatched = np.bitwise_and(pair_classifications, PairClassification.FN_UNMATCHED) > 0
""", """        mask_tp[score_idx] = mask_true_positives
        mask_fp_fn_misclf[score_idx] = mask_misclassifications
        mask_fn_unmatched[score_idx] = mask_unmatched_groundtruths
"""))
R("clf-rocauc-rename", "classification/computation.py", (
"""        mask_pds = pd_labels == label_idx
        n_masked_pds = mask_pds.sum()
        if pd_count_per_label[label_idx] == 0 or n_masked_pds == 0:
            continue
        fps = cumulative_fp[mask_pds]
        tps = cumulative_tp[mask_pds]
""", """        if pd_count_per_label[label_idx] == 0:
            continue
        selected = pd_labels == label_idx
        if not selected.any():
            continue
        fps, tps = cumulative_fp[selected], cumulative_tp[selected]
"""))
R("clf-cm-helper", "classification/computation.py", (
"""        unique_pairs = np.unique(ids[np.ix_(mask_fn_unmatched[score_idx], (0, 1))], axis=0)
        unique_labels, unique_label_counts = np.unique(unique_pairs[:, 1], return_counts=True)
        unmatched_groundtruths[score_idx, unique_labels] = unique_label_counts
""", """        unmatched = np.unique(ids[mask_fn_unmatched[score_idx]][:, [0, 1]], axis=0)
        labels, label_counts = np.unique(unmatched[:, 1], return_counts=True)
        unmatched_groundtruths[score_idx, labels] = label_counts
"""))
R("clf-addlabel", "classification/loader.py", (
"""        idx = self._labels.get(value, None)
        if idx is None:
            idx = len(self._labels)
            self._labels[value] = idx
            self._index_to_label[idx] = value
        return idx
""", """        if value in self._labels:
            return self._labels[value]
        idx = len(self._labels)
        self._index_to_label[idx] = value
        self._labels[value] = idx
        return idx
"""))
R("clf-adddata-comp", "classification/loader.py", (
"""            rows = []
            gidx = self._add_label(classification.groundtruth)
            max_score_idx = np.argmax(np.array(classification.scores))
            for idx, (plabel, score) in enumerate(zip(classification.predictions, classification.scores)):
                pidx = self._add_label(plabel)
                rows.append({**datum_metadata, 'datum_uid'""", """            gidx = self._add_label(classification.groundtruth)
            winner = int(np.argmax(np.array(classification.scores)))
            rows = []
            for idx in range(len(classification.predictions)):
                plabel, score = classification.predictions[idx], classification.scores[idx]
                pidx = self._add_label(plabel)
                max_score_idx = winner
                rows.append({**datum_metadata, 'datum_uid'"""))
R("clf-adddata-dict", "classification/loader.py", (
"""                rows.append({**datum_metadata, 'datum_uid': classification.uid, 'datum_id': self._datum_count, 'gt_label': classification.groundtruth, 'gt_label_id': gidx, """,
"""                common = dict(datum_metadata)
                common['datum_uid'] = classification.uid
                common['datum_id'] = self._datum_count
                rows.append({**common, 'gt_label': classification.groundtruth, 'gt_label_id': gidx, """),
("classification.metadata if classification.metadata else {}", "classification.metadata or {}"))
R("clf-eval-loop-var", "classification/evaluator.py", (
"""            batch_counts = compute_counts(ids=ids, scores=scores, winners=winners, score_thresholds=np.array(score_thresholds), hardmax=hardmax, n_labels=n_labels)
            counts += batch_counts
""", """            counts = counts + compute_counts(ids=ids, scores=scores, winners=winners, score_thresholds=thresholds, hardmax=hardmax, n_labels=n_labels)
"""), ("""        counts = np.zeros((n_scores, n_labels, 4), dtype=np.uint64)
""", """        counts = np.zeros((n_scores, n_labels, 4), dtype=np.uint64)
        thresholds = np.array(score_thresholds)
"""))
R("clf-eval-check-helper", "classification/evaluator.py", (
"""        if not score_thresholds:
            raise ValueError('At least one score threshold must be passed.')
""", """        _require_thresholds(score_thresholds)
"""), ("class Builder:", """def _require_thresholds(score_thresholds):
    if len(score_thresholds) == 0:
        raise ValueError('At least one score threshold must be passed.')

class Builder:"""))
R("clf-eval-len", "classification/evaluator.py", (
"""        info = self.get_info(datums=datums)
        n_datums = info.number_of_datums
        n_labels = info.number_of_labels
""", """        n_labels = len(self._index_to_label)
        n_datums = self.get_info(datums=datums).number_of_datums
"""))
R("clf-iterate-cols", "classification/evaluator.py", (
"""            ids = np.column_stack([tbl[col].to_numpy() for col in ['datum_id', 'gt_label_id', 'pd_label_id']])
            scores = tbl['pd_score'].to_numpy()
            winners = tbl['pd_winner'].to_numpy()
            matches = tbl['match'].to_numpy()
            yield (ids, scores, winners, matches)
""", """            id_columns = ('datum_id', 'gt_label_id', 'pd_label_id')
            ids = np.column_stack([tbl[name].to_numpy() for name in id_columns])
            yield (ids, tbl['pd_score'].to_numpy(), tbl['pd_winner'].to_numpy(), tbl['match'].to_numpy())
"""))
R("clf-roc-intermediate", "classification/evaluator.py", (
"""                mask = pd_label_ids == idx
                if mask.sum() == 0:
                    continue
                cumulative_fp = np.r_[running_max_fp[idx], np.cumsum(fps[mask]) + running_max_fp[idx]]
                cumulative_tp = np.r_[running_max_tp[idx], np.cumsum(tps[mask]) + running_max_tp[idx]]
""", """                mask = pd_label_ids == idx
                if not np.any(mask):
                    continue
                prev_fp, prev_tp = running_max_fp[idx], running_max_tp[idx]
                cumulative_fp = np.r_[prev_fp, prev_fp + np.cumsum(fps[mask])]
                cumulative_tp = np.r_[prev_tp, prev_tp + np.cumsum(tps[mask])]
"""), ("for idx in index_to_label.keys():", "for idx in index_to_label:"))
R("clf-extract-labels-loop", "classification/shared.py", (
"""        gt_label_ids = tbl['gt_label_id'].to_numpy()
        gt_label_ids, gt_indices = np.unique(gt_label_ids, return_index=True)
        gt_labels = tbl['gt_label'].take(gt_indices).to_pylist()
        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))
        gt_labels.pop(-1, None)
        index_to_label.update(gt_labels)
        pd_label_ids = tbl['pd_label_id'].to_numpy()
        pd_label_ids, pd_indices = np.unique(pd_label_ids, return_index=True)
        pd_labels = tbl['pd_label'].take(pd_indices).to_pylist()
        pd_labels = dict(zip(pd_label_ids.astype(int).tolist(), pd_labels))
        pd_labels.pop(-1, None)
        index_to_label.update(pd_labels)
""", """        for prefix in ('gt', 'pd'):
            ids = tbl[f'{prefix}_label_id'].to_numpy()
            ids, first = np.unique(ids, return_index=True)
            names = tbl[f'{prefix}_label'].take(first).to_pylist()
            mapping = dict(zip(ids.astype(int).tolist(), names))
            mapping.pop(-1, None)
            index_to_label.update(mapping)
"""))
R("clf-extract-labels-helper", "classification/shared.py", (
"""        gt_label_ids = tbl['gt_label_id'].to_numpy()
        gt_label_ids, gt_indices = np.unique(gt_label_ids, return_index=True)
        gt_labels = tbl['gt_label'].take(gt_indices).to_pylist()
        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))
        gt_labels.pop(-1, None)
        index_to_label.update(gt_labels)
        pd_label_ids = tbl['pd_label_id'].to_numpy()
        pd_label_ids, pd_indices = np.unique(pd_label_ids, return_index=True)
        pd_labels = tbl['pd_label'].take(pd_indices).to_pylist()
        pd_labels = dict(zip(pd_label_ids.astype(int).tolist(), pd_labels))
        pd_labels.pop(-1, None)
        index_to_label.update(pd_labels)
""", """        index_to_label.update(_unique_labels(tbl, 'gt_label_id', 'gt_label'))
        index_to_label.update(_unique_labels(tbl, 'pd_label_id', 'pd_label'))
"""), ("def extract_labels(", """def _unique_labels(tbl, id_column, label_column):
    label_ids, indices = np.unique(tbl[id_column].to_numpy(), return_index=True)
    labels = tbl[label_column].take(indices).to_pylist()
    mapping = dict(zip(label_ids.astype(int).tolist(), labels))
    mapping.pop(-1, None)
    return mapping

def extract_labels("""))
R("clf-extract-counts-sum", "classification/shared.py", (
"""    n_dts = 0
    for tbl in reader.iterate_tables(filter=datums):
        n_dts += int(np.unique(tbl['datum_id'].to_numpy()).shape[0])
    return n_dts
""", """    return sum((len(np.unique(tbl['datum_id'].to_numpy())) for tbl in reader.iterate_tables(filter=datums)))
"""))
R("clf-encode", "classification/shared.py", (
"""    metadata_fields = metadata_fields if metadata_fields else []
    return {k: str(v) for k, v in metadata_fields}
""", """    encoded = {}
    for name, data_type in metadata_fields or []:
        encoded[name] = str(data_type)
    return encoded
"""), ("""    return [(k, v) for k, v in encoded_metadata_fields.items()]
""", """    return list(encoded_metadata_fields.items())
"""))
R("clf-unpack-order", "classification/utilities.py", (
"""    for label_idx, label in index_to_label.items():
        for score_idx, score_threshold in enumerate(score_thresholds):
            kwargs = {'label': label, 'hardmax': hardmax, 'score_threshold': score_threshold}
            row = counts[:, label_idx]
            metrics[MetricType.Counts].append(Metric.counts(tp=int(row[score_idx, 0]), fp=int(row[score_idx, 1]), fn=int(row[score_idx, 2]), tn=int(row[score_idx, 3]), **kwargs))
""", """    for label_idx, label in index_to_label.items():
        for score_idx, score_threshold in enumerate(score_thresholds):
            kwargs = dict(label=label, hardmax=hardmax, score_threshold=score_threshold)
            tp, fp, fn, tn = counts[score_idx, label_idx]
            metrics[MetricType.Counts].append(Metric.counts(tp=int(tp), fp=int(fp), fn=int(fn), tn=int(tn), **kwargs))
"""))
R("clf-unpack-cm-comp", "classification/utilities.py", (
"""        cm_dict = {}
        ugt_dict = {}
        for idx, label in index_to_label.items():
            ugt_dict[label] = int(unmatched_groundtruths[score_idx, idx])
            for pidx, plabel in index_to_label.items():
                if label not in cm_dict:
                    cm_dict[label] = {}
                cm_dict[label][plabel] = int(confusion_matrices[score_idx, idx, pidx])
""", """        ugt_dict = {label: int(unmatched_groundtruths[score_idx, idx]) for idx, label in index_to_label.items()}
        cm_dict = {label: {plabel: int(confusion_matrices[score_idx, idx, pidx]) for pidx, plabel in index_to_label.items()} for idx, label in index_to_label.items()}
"""))
R("clf-mapping-filter", "classification/utilities.py", (
"""    col = pairs[:, index].astype(np.int64)
    values, indices = np.unique(col, return_index=True)
    indices = indices[values >= 0]
    return {tbl[id_col][idx].as_py(): tbl[uid_col][idx].as_py() for idx in indices}
""", """    values, indices = np.unique(pairs[:, index].astype(np.int64), return_index=True)
    mapping = {}
    for value, idx in zip(values, indices):
        if value < 0:
            continue
        mapping[tbl[id_col][idx].as_py()] = tbl[uid_col][idx].as_py()
    return mapping
"""))
R("clf-examples-rename", "classification/utilities.py", (
"""            tp = [index_to_label[row[1]] for row in unique_tp]
            fp = [index_to_label[row[1]] for row in unique_fp if index_to_label[row[1]] not in tp]
            fn = [index_to_label[row[1]] for row in unique_fn if index_to_label[row[1]] not in tp]
            metrics.append(Metric.examples(datum_id=datum_id, true_positives=tp, false_negatives=fn, false_positives=fp, score_threshold=score_thresh, hardmax=hardmax))
""", """            true_positives = [index_to_label[label_id] for _, label_id, _ in unique_tp]
            false_positives = []
            for row in unique_fp:
                name = index_to_label[row[1]]
                if name in true_positives:
                    continue
                false_positives.append(name)
            false_negatives = [name for name in (index_to_label[row[1]] for row in unique_fn) if name not in true_positives]
            metrics.append(Metric.examples(datum_id=datum_id, score_threshold=score_thresh, hardmax=hardmax, true_positives=true_positives, false_negatives=false_negatives, false_positives=false_positives))
"""))
# ---------------------------------------------------------------- object detection
R("od-iou-unpack", "object_detection/computation.py", (
"""    xmin1, xmax1, ymin1, ymax1 = (data[:, 0, 0], data[:, 0, 1], data[:, 0, 2], data[:, 0, 3])
    xmin2, xmax2, ymin2, ymax2 = (data[:, 1, 0], data[:, 1, 1], data[:, 1, 2], data[:, 1, 3])
""", """    box1, box2 = data[:, 0], data[:, 1]
    xmin1, xmax1, ymin1, ymax1 = (box1[:, 0], box1[:, 1], box1[:, 2], box1[:, 3])
    xmin2, xmax2, ymin2, ymax2 = (box2[:, i] for i in range(4))
"""))
R("od-iou-helper", "object_detection/computation.py", (
"""    ious = np.zeros(n_pairs, dtype=np.float64)
    np.divide(intersection_area, union_area, where=union_area >= EPSILON, out=ious)
    return ious
""", """    return _ratio(intersection_area, union_area, n_pairs)
"""), ("""    ious = np.zeros(n_pairs, dtype=np.float64)
    np.divide(intersection_, union_, where=union_ >= EPSILON, out=ious)
    return ious
""", """    return _ratio(intersection_, union_, n_pairs)
"""), ("def compute_bbox_iou(", """def _ratio(intersection, union, n_pairs):
    ious = np.zeros(n_pairs, dtype=np.float64)
    np.divide(intersection, union, where=union >= EPSILON, out=ious)
    return ious

def compute_bbox_iou("""))
R("od-rank-keep", "object_detection/computation.py", (
"""    pairs = pairs[mask_label_match | mask_unmatched_predictions]
    indices = indices[mask_label_match | mask_unmatched_predictions]
    _, unique_indices = np.unique(pairs[:, [0, 2, 4]], axis=0, return_index=True)
    pairs = pairs[unique_indices]
    indices = indices[unique_indices]
    sorted_indices = np.lexsort((-pairs[:, 5], -pairs[:, 6]))
    pairs = pairs[sorted_indices]
    indices = indices[sorted_indices]
    return (pairs, indices)
""", """    keep = mask_unmatched_predictions | mask_label_match
    pairs, indices = pairs[keep], indices[keep]
    unique_indices = np.unique(pairs[:, [0, 2, 4]], axis=0, return_index=True)[1]
    pairs, indices = pairs[unique_indices], indices[unique_indices]
    order = np.lexsort((-pairs[:, 5], -pairs[:, 6]))
    return (pairs[order], indices[order])
"""))
R("od-boundaries", "object_detection/computation.py", (
"""        mask_gt = (gts == gt).all(axis=1)
        mask_gt &= mask_matching_labels
        if mask_gt.sum() <= 1:
            iou_boundary[mask_gt] = 0.0
            continue
""", """        mask_gt = np.all(gts == gt, axis=1) & mask_matching_labels
        if not mask_gt.sum() > 1:
            iou_boundary[mask_gt] = 0.0
            continue
"""), ("iou_boundary = np.ones_like(ious) * 2", "iou_boundary = 2 * np.ones_like(ious)"))
R("od-counts-enum", "object_detection/computation.py", (
"""    for iou_idx in range(n_ious):
        mask_iou_curr = ious >= iou_thresholds[iou_idx]
        mask_iou_prev = prev_ious < max(iou_thresholds[iou_idx], EPSILON)
        mask_iou = mask_iou_curr & mask_iou_prev
        mask_tp_outer = mask_tp & mask_iou
        mask_fp_outer = mask_fp & (~mask_gt_exists_labels_match & mask_iou | ~mask_iou)
        for score_idx in range(n_scores):
            mask_score_thresh = scores >= score_thresholds[score_idx]
""", """    for iou_idx, iou_threshold in enumerate(iou_thresholds):
        mask_iou = (ious >= iou_threshold) & (prev_ious < max(iou_threshold, EPSILON))
        mask_tp_outer = mask_tp & mask_iou
        mask_fp_outer = mask_fp & ~(mask_gt_exists_labels_match & mask_iou)
        for score_idx, score_threshold in enumerate(score_thresholds):
            mask_score_thresh = scores >= score_threshold
"""))
R("od-counts-running", "object_detection/computation.py", (
"""            running_total_count[iou_idx, mask_pd_label] = np.arange(running_counts[iou_idx, pd_label, 0] + 1, running_counts[iou_idx, pd_label, 0] + total_count + 1)
            running_counts[iou_idx, pd_label, 0] += total_count
""", """            start = running_counts[iou_idx, pd_label, 0] + 1
            running_total_count[iou_idx, mask_pd_label] = np.arange(start, start + total_count)
            running_counts[iou_idx, pd_label, 0] += total_count
"""))
R("od-counts-no-total-guard", "object_detection/computation.py", (
"""    unique_pd_labels, _ = np.unique(pd_labels, return_index=True)
""", """    unique_pd_labels = np.unique(pd_labels)
"""))
R("od-prf1", "object_detection/computation.py", (
"""    tp_count = counts[:, :, 0, :]
    fp_count = counts[:, :, 1, :]
    tp_fp_count = tp_count + fp_count
    np.divide(tp_count, tp_fp_count, where=tp_fp_count > 0, out=prec_rec_f1[:, :, 0, :])
""", """    tp_count = counts[:, :, 0]
    tp_fp_count = counts[:, :, 0] + counts[:, :, 1]
    np.divide(tp_count, tp_fp_count, where=tp_fp_count > 0, out=prec_rec_f1[:, :, 0, :])
"""), ("2 * np.multiply(p, r)", "2 * p * r"))
R("od-ap", "object_detection/computation.py", (
"""    for recall in range(100, -1, -1):
        running_max_precision = np.maximum(pr_curve[:, :, recall, 0], running_max_precision)
""", """    for recall in reversed(range(101)):
        running_max_precision = np.maximum(running_max_precision, pr_curve[:, :, recall, 0])
"""))
R("od-greedy", "object_detection/computation.py", (
"""    for idx in range(groundtruths.shape[0]):
        gidx = groundtruths[idx]
        pidx = predictions[idx]
        if not (gidx < 0 or pidx < 0 or used_gt[gidx] or used_pd[pidx]):
            keep[idx] = True
            used_gt[gidx] = True
            used_pd[pidx] = True
""", """    for idx, (gidx, pidx) in enumerate(zip(groundtruths, predictions)):
        if gidx < 0 or pidx < 0:
            continue
        if used_gt[gidx] or used_pd[pidx]:
            continue
        used_gt[gidx] = True
        used_pd[pidx] = True
        keep[idx] = True
"""))
R("od-pair-order", "object_detection/computation.py", (
"""            mask_thresholded_matched_pairs = mask_matched_pairs & mask_iou & mask_score
            mask_true_positives = mask_thresholded_matched_pairs & mask_gt_pd_match
            mask_misclf = mask_thresholded_matched_pairs & ~mask_gt_pd_match
""", """            thresholded = mask_score & mask_iou
            mask_thresholded_matched_pairs = mask_matched_pairs & thresholded
            mask_misclf = mask_thresholded_matched_pairs & ~(mask_gt_pd_exists & mask_label_match)
            mask_true_positives = mask_thresholded_matched_pairs & mask_gt_pd_match
"""))
R("od-cm-helper", "object_detection/computation.py", (
"""            unique_pairs = np.unique(ids[np.ix_(mask_fn_unmatched[iou_idx, score_idx], (0, 1, 3))], axis=0)
            unique_labels, unique_label_counts = np.unique(unique_pairs[:, 2], return_counts=True)
            unmatched_groundtruths[iou_idx, score_idx, unique_labels] = unique_label_counts
            unique_pairs = np.unique(ids[np.ix_(mask_fp_unmatched[iou_idx, score_idx], (0, 2, 4))], axis=0)
            unique_labels, unique_label_counts = np.unique(unique_pairs[:, 2], return_counts=True)
            unmatched_predictions[iou_idx, score_idx, unique_labels] = unique_label_counts
""", """            labels, label_counts = _count_labels(ids, mask_fn_unmatched[iou_idx, score_idx], (0, 1, 3))
            unmatched_groundtruths[iou_idx, score_idx, labels] = label_counts
            labels, label_counts = _count_labels(ids, mask_fp_unmatched[iou_idx, score_idx], (0, 2, 4))
            unmatched_predictions[iou_idx, score_idx, labels] = label_counts
"""), ("def compute_confusion_matrix(", """def _count_labels(ids, mask, columns):
    unique_pairs = np.unique(ids[np.ix_(mask, columns)], axis=0)
    return np.unique(unique_pairs[:, 2], return_counts=True)

def compute_confusion_matrix("""))
R("od-rank-table", "object_detection/computation.py", (
"""    sorting_args = [('pd_score', 'descending'), ('iou', 'descending')]
    sorted_tbl = tbl.sort_by(sorting_args)
    pairs = np.column_stack([sorted_tbl[col].to_numpy() for col in numeric_columns])
    ranked_pairs, indices = rank_pairs(pairs)
    ranked_tbl = sorted_tbl.take(indices)
    lower_iou_bound = calculate_ranking_boundaries(ranked_pairs)
    ranked_tbl = ranked_tbl.append_column(pa.field('iou_prev', pa.float64()), pa.array(lower_iou_bound, type=pa.float64()))
    return ranked_tbl
""", """    sorted_tbl = tbl.sort_by([('pd_score', 'descending'), ('iou', 'descending')])
    columns = [sorted_tbl[name].to_numpy() for name in numeric_columns]
    ranked_pairs, indices = rank_pairs(np.column_stack(columns))
    boundary = pa.array(calculate_ranking_boundaries(ranked_pairs), type=pa.float64())
    return sorted_tbl.take(indices).append_column(pa.field('iou_prev', pa.float64()), boundary)
"""))
R("od-eval-guard", "object_detection/evaluator.py", (
"""            if pairs.size == 0:
                continue
            batch_counts = compute_counts(""", """            if len(pairs) == 0:
                continue
            batch_counts = compute_counts("""), (
"number_of_labels=len(self._index_to_label), running_counts", "number_of_labels=n_labels, running_counts"))
R("od-eval-thresholds", "object_detection/evaluator.py", (
"""        if not iou_thresholds:
            raise ValueError('At least one IOU threshold must be passed.')
        elif not score_thresholds:
            raise ValueError('At least one score threshold must be passed.')
""", """        if not iou_thresholds:
            raise ValueError('At least one IOU threshold must be passed.')
        if not score_thresholds:
            raise ValueError('At least one score threshold must be passed.')
"""), ("""            index_to_datum_id = {}
            index_to_groundtruth_id = {}
            index_to_prediction_id = {}
""", ""))
R("od-filter-helper", "object_detection/evaluator.py", (
"""            if groundtruths is not None:
                mask_valid_gt = np.zeros(n_pairs, dtype=np.bool_)
                gt_tbl = tbl.filter(groundtruths)
                gt_pairs = np.column_stack([gt_tbl[col].to_numpy() for col in ('datum_id', 'gt_id', 'gt_label_id')]).astype(np.int64)
                for gt in np.unique(gt_pairs, axis=0):
                    mask_valid_gt |= (gt_ids == gt).all(axis=1)
            else:
                mask_valid_gt = np.ones(n_pairs, dtype=np.bool_)
            if predictions is not None:
                mask_valid_pd = np.zeros(n_pairs, dtype=np.bool_)
                pd_tbl = tbl.filter(predictions)
                pd_pairs = np.column_stack([pd_tbl[col].to_numpy() for col in ('datum_id', 'pd_id', 'pd_label_id')]).astype(np.int64)
                for pd in np.unique(pd_pairs, axis=0):
                    mask_valid_pd |= (pd_ids == pd).all(axis=1)
            else:
                mask_valid_pd = np.ones(n_pairs, dtype=np.bool_)
""", """            mask_valid_gt = _valid_mask(tbl, gt_ids, groundtruths, ('datum_id', 'gt_id', 'gt_label_id'))
            mask_valid_pd = _valid_mask(tbl, pd_ids, predictions, ('datum_id', 'pd_id', 'pd_label_id'))
"""), ("class Builder:", """def _valid_mask(tbl, ids, expression, columns):
    n_pairs = ids.shape[0]
    if expression is None:
        return np.ones(n_pairs, dtype=np.bool_)
    mask = np.zeros(n_pairs, dtype=np.bool_)
    selected = tbl.filter(expression)
    rows = np.column_stack([selected[col].to_numpy() for col in columns]).astype(np.int64)
    for row in np.unique(rows, axis=0):
        mask |= (ids == row).all(axis=1)
    return mask

class Builder:"""))
R("od-filter-invalid", "object_detection/evaluator.py", (
"""            mask_invalid = ~mask_valid | (pairs[:, (1, 2)] < 0).all(axis=1)
            filtered_tbl = tbl.filter(pa.array(~mask_invalid))
            loader._detailed_writer.write_table(filtered_tbl)
""", """            mask_empty = (pairs[:, (1, 2)] < 0).all(axis=1)
            mask_keep = mask_valid & ~mask_empty
            loader._detailed_writer.write_table(tbl.filter(pa.array(mask_keep)))
"""), ("""            mask_valid_gt &= mask_valid
            mask_valid_pd &= mask_valid
""", ""))
R("od-finalize-order", "object_detection/evaluator.py", (
"""        if self._detailed_writer.count_rows() == 0:
            raise EmptyCacheError()
        elif self._ranked_writer.count_rows() > 0:
            raise RuntimeError('data already finalized')
""", """        if not self._detailed_writer.count_rows():
            raise EmptyCacheError()
        if self._ranked_writer.count_rows() != 0:
            raise RuntimeError('data already finalized')
"""))
R("od-gtcount-scatter", "object_detection/shared.py", (
"""        for label_id, count in zip(unique_labels, label_counts):
            gt_counts_per_lbl[int(label_id)] += int(count)
""", """        for idx in range(len(unique_labels)):
            label_id = int(unique_labels[idx])
            gt_counts_per_lbl[label_id] += int(label_counts[idx])
"""))
R("od-gtcount-vector", "object_detection/shared.py", (
"""        for label_id, count in zip(unique_labels, label_counts):
            gt_counts_per_lbl[int(label_id)] += int(count)
""", """        gt_counts_per_lbl[unique_labels.astype(int)] += label_counts.astype(np.uint64)
"""))
R("od-extract-counts-ternary", "object_detection/shared.py", (
"""        if groundtruths is not None:
            gts = tbl.filter(groundtruths)['gt_id'].to_numpy()
        else:
            gts = tbl['gt_id'].to_numpy()
""", """        gt_tbl = tbl if groundtruths is None else tbl.filter(groundtruths)
        gts = gt_tbl['gt_id'].to_numpy()
"""))
R("od-schema-loop", "object_detection/shared.py", (
"""    return pa.schema([*reserved_detailed_fields, *metadata_fields, *reserved_ranking_fields])
""", """    fields = list(reserved_detailed_fields)
    fields.extend(metadata_fields)
    fields.extend(reserved_ranking_fields)
    return pa.schema(fields)
"""))
R("od-unpack-comp-to-loop", "object_detection/utilities.py", (
"""    metrics[MetricType.AP] = [Metric.average_precision(value=float(average_precision[iou_idx][label_idx]), iou_threshold=iou_threshold, label=label) for iou_idx, iou_threshold in enumerate(iou_thresholds) for label_idx, label in index_to_label.items()]
""", """    for iou_idx, iou_threshold in enumerate(iou_thresholds):
        for label_idx, label in index_to_label.items():
            metrics[MetricType.AP].append(Metric.average_precision(value=float(average_precision[iou_idx, label_idx]), iou_threshold=iou_threshold, label=label))
"""))
R("od-unpack-row", "object_detection/utilities.py", (
"""                row = counts[iou_idx, score_idx, :, label_idx]
""", """                tp, fp, fn = counts[iou_idx, score_idx, :, label_idx]
"""), ("tp=int(row[0]), fp=int(row[1]), fn=int(row[2])", "tp=int(tp), fp=int(fp), fn=int(fn)"))
R("od-unpack-cm-setdefault", "object_detection/utilities.py", (
"""                for pidx, plabel in index_to_label.items():
                    if label not in cm_dict:
                        cm_dict[label] = {}
                    cm_dict[label][plabel] = int(confusion_matrices[iou_idx, score_idx, idx, pidx])
""", """                cm_dict[label] = {}
                for pidx, plabel in index_to_label.items():
                    cm_dict[label][plabel] = int(confusion_matrices[iou_idx, score_idx, idx, pidx])
"""))
R("od-unpack-examples-loops", "object_detection/utilities.py", (
"""    for idx in range(n_max):
        if idx < n_unmatched_groundtruths:
            label = index_to_label[unique_unmatched_groundtruths[idx, 2]]
""", """    for idx in range(n_max):
        if n_unmatched_groundtruths > idx:
            label_id = unique_unmatched_groundtruths[idx, 2]
            label = index_to_label[label_id]
"""))
R("od-unpack-examples-split", "object_detection/utilities.py", (
"""    for idx in range(n_max):
        if idx < n_unmatched_groundtruths:
            label = index_to_label[unique_unmatched_groundtruths[idx, 2]]
            metric.value['unmatched_ground_truths'][label]['count'] += 1
            metric.value['unmatched_ground_truths'][label]['examples'].append({'datum_id': index_to_datum_id[unique_unmatched_groundtruths[idx, 0]], 'ground_truth_id': index_to_groundtruth_id[unique_unmatched_groundtruths[idx, 1]]})
        if idx < n_unmatched_predictions:
""", """    for idx in range(n_unmatched_groundtruths):
        label = index_to_label[unique_unmatched_groundtruths[idx, 2]]
        metric.value['unmatched_ground_truths'][label]['count'] += 1
        metric.value['unmatched_ground_truths'][label]['examples'].append({'datum_id': index_to_datum_id[unique_unmatched_groundtruths[idx, 0]], 'ground_truth_id': index_to_groundtruth_id[unique_unmatched_groundtruths[idx, 1]]})
    for idx in range(n_max):
        if idx < n_unmatched_predictions:
"""))
R("od-loader-ids", "object_detection/loader.py", (
"""            self._datum_count += 1
            self._groundtruth_count += len(detection.groundtruths)
            self._prediction_count += len(detection.predictions)
            self._detailed_writer.write_rows(pairs)
""", """            self._detailed_writer.write_rows(pairs)
            self._prediction_count += len(detection.predictions)
            self._groundtruth_count += len(detection.groundtruths)
            self._datum_count += 1
"""), ("gann.metadata if gann.metadata else {}", "gann.metadata or {}"))
# ---------------------------------------------------------------- segmentation
R("seg-intermediates", "semantic_segmentation/computation.py", (
"""    background_counts = np.logical_not(groundtruths.any(axis=0) | predictions.any(axis=0)).sum()
    intersection_counts = np.logical_and(groundtruths[:, None, :], predictions[None, :, :]).sum(axis=2)
""", """    covered = np.logical_or(groundtruths.any(axis=0), predictions.any(axis=0))
    background_counts = np.sum(~covered)
    intersection_counts = (groundtruths[:, np.newaxis, :] & predictions[np.newaxis, :, :]).sum(axis=2)
"""))
R("seg-intermediates-names", "semantic_segmentation/computation.py", (
"""    intersected_groundtruth_counts = intersection_counts.sum(axis=1)
    intersected_prediction_counts = intersection_counts.sum(axis=0)
""", """    gt_rows = groundtruth_labels + 1
    pd_cols = prediction_labels + 1
    unmatched_predictions = prediction_counts - intersection_counts.sum(axis=0)
    unmatched_groundtruths = groundtruth_counts - intersection_counts.sum(axis=1)
"""), ("np.ix_(groundtruth_labels + 1, prediction_labels + 1)", "np.ix_(gt_rows, pd_cols)"),
("(0, prediction_labels + 1), (prediction_counts - intersected_prediction_counts).astype(np.uint64)", "(0, pd_cols), unmatched_predictions.astype(np.uint64)"),
("(groundtruth_labels + 1, 0), (groundtruth_counts - intersected_groundtruth_counts).astype(np.uint64)", "(gt_rows, 0), unmatched_groundtruths.astype(np.uint64)"))
R("seg-metrics-acc", "semantic_segmentation/computation.py", (
"""    accuracy = (tp_count + background_count) / n_pixels if n_pixels > 0 else 0.0
""", """    if n_pixels > 0:
        accuracy = (background_count + tp_count) / n_pixels
    else:
        accuracy = 0.0
"""), ("tp_count = confusion_matrix[1:, 1:].diagonal().sum()", "tp_count = tp_counts.sum()"))
R("seg-metrics-trace", "semantic_segmentation/computation.py", (
"""    union_ = gt_counts[:, np.newaxis] + pd_counts[np.newaxis, :] - intersection_
""", """    union_ = gt_counts.reshape(-1, 1) + pd_counts.reshape(1, -1) - intersection_
"""), ("2 * (precision * recall)", "2 * precision * recall"))
R("seg-cm-hoist", "semantic_segmentation/evaluator.py", (
"""            mask_null_gts = ids[:, 1] == -1
            mask_null_pds = ids[:, 2] == -1
""", """            gt_labels, pd_labels = ids[:, 1], ids[:, 2]
            mask_null_gts = gt_labels == -1
            mask_null_pds = pd_labels == -1
"""), ("""                mask_gts = ids[:, 1] == idx
                for pidx in range(n_labels):
                    mask_pds = ids[:, 2] == pidx
                    confusion_matrix[idx + 1, pidx + 1] += counts[mask_gts & mask_pds].sum()
                mask_unmatched_gts = mask_gts & mask_null_pds
                confusion_matrix[idx + 1, 0] += counts[mask_unmatched_gts].sum()
                mask_unmatched_pds = mask_null_gts & (ids[:, 2] == idx)
                confusion_matrix[0, idx + 1] += counts[mask_unmatched_pds].sum()
""", """                mask_gts = gt_labels == idx
                confusion_matrix[idx + 1, 0] += counts[mask_gts & mask_null_pds].sum()
                confusion_matrix[0, idx + 1] += counts[mask_null_gts & (pd_labels == idx)].sum()
                for pidx in range(n_labels):
                    confusion_matrix[idx + 1, pidx + 1] += counts[mask_gts & (pd_labels == pidx)].sum()
"""))
R("seg-filter-and", "semantic_segmentation/evaluator.py", (
"""            mask_valid = mask_valid_gt | mask_valid_pd
            mask_valid_gt &= mask_valid
            mask_valid_pd &= mask_valid
            pairs[~mask_valid_gt, 1] = -1
            pairs[~mask_valid_pd, 2] = -1
            for idx, col in enumerate(columns):
                tbl = tbl.set_column(tbl.schema.names.index(col), col, pa.array(pairs[:, idx]))
""", """            pairs[~mask_valid_gt, 1] = -1
            pairs[~mask_valid_pd, 2] = -1
            names = tbl.schema.names
            for idx, col in enumerate(columns):
                values = pa.array(pairs[:, idx])
                tbl = tbl.set_column(names.index(col), col, values)
"""))
R("seg-loader-labels", "semantic_segmentation/loader.py", (
"""            groundtruth_labels = -1 * np.ones(len(segmentation.groundtruths), dtype=np.int64)
            for idx, groundtruth in enumerate(segmentation.groundtruths):
                label_idx = self._add_label(groundtruth.label)
                groundtruth_labels[idx] = label_idx
""", """            groundtruth_labels = np.array([self._add_label(groundtruth.label) for groundtruth in segmentation.groundtruths], dtype=np.int64)
"""))
R("seg-loader-labels-full", "semantic_segmentation/loader.py", (
"""            groundtruth_labels = -1 * np.ones(len(segmentation.groundtruths), dtype=np.int64)
            for idx, groundtruth in enumerate(segmentation.groundtruths):
                label_idx = self._add_label(groundtruth.label)
                groundtruth_labels[idx] = label_idx
""", """            groundtruth_labels = np.full(len(segmentation.groundtruths), -1, dtype=np.int64)
            for idx, groundtruth in enumerate(segmentation.groundtruths):
                groundtruth_labels[idx] = self._add_label(groundtruth.label)
"""))
R("seg-loader-rows", "semantic_segmentation/loader.py", (
"""                    if counts[idx + 1, pidx + 1] > 0:
                        plabel = self._index_to_label[pidx]
""", """                    count = counts[idx + 1, pidx + 1]
                    if not count > 0:
                        continue
                    plabel = self._index_to_label[pidx]
                    if True:
"""))
R("seg-counts-order", "semantic_segmentation/shared.py", (
"""        gt_tbl = tbl
        gt_expr = pc.field('gt_label_id') >= 0
        if groundtruths is not None:
            gt_expr &= groundtruths
        gt_tbl = tbl.filter(gt_expr)
        n_gts += int(gt_tbl['count'].to_numpy().sum())
        pd_tbl = tbl
        pd_expr = pc.field('pd_label_id') >= 0
        if predictions is not None:
            pd_expr &= predictions
        pd_tbl = tbl.filter(pd_expr)
        n_pds += int(pd_tbl['count'].to_numpy().sum())
""", """        gt_expr = pc.field('gt_label_id') >= 0
        pd_expr = pc.field('pd_label_id') >= 0
        if predictions is not None:
            pd_expr = pd_expr & predictions
        if groundtruths is not None:
            gt_expr = gt_expr & groundtruths
        n_pds += int(tbl.filter(pd_expr)['count'].to_numpy().sum())
        n_gts += int(tbl.filter(gt_expr)['count'].to_numpy().sum())
"""))
# ---------------------------------------------------------------- text generation
R("txt-retry-else", "text_generation/manager.py", (
"""        error = None
        retries = getattr(self, 'retries', 0)
        for _ in range(1 + retries):
            try:
                return fn(self, *args, **kwargs)
            except InvalidLLMResponseError as e:
                error = e
""", """        retries = getattr(self, 'retries', 0)
        error = None
        for _attempt in range(retries + 1):
            try:
                result = fn(self, *args, **kwargs)
            except InvalidLLMResponseError as exc:
                error = exc
            else:
                return result
"""))
R("txt-verdict-helper", "text_generation/computation.py", (
"""    return sum((verdict['verdict'] == 'yes' for verdict in verdicts)) / len(verdicts)
""", """    return _fraction_yes(verdicts)
"""), ("def calculate_answer_correctness(", """def _fraction_yes(verdicts):
    positives = [v for v in verdicts if v['verdict'] == 'yes']
    return len(positives) / len(verdicts)

def calculate_answer_correctness("""))
R("txt-sum-int", "text_generation/computation.py", (
"""    if len(opinions) == 0:
        return 0.0
    verdicts = generate_bias_verdicts(client=client, system_prompt=system_prompt, opinions=opinions)
    return sum((verdict['verdict'] == 'yes' for verdict in verdicts)) / len(verdicts)
""", """    if not opinions:
        return 0.0
    verdicts = generate_bias_verdicts(client=client, system_prompt=system_prompt, opinions=opinions)
    n_yes = 0
    for verdict in verdicts:
        if verdict['verdict'] == 'yes':
            n_yes += 1
    return n_yes / len(verdicts)
"""))
R("txt-precision-enum", "text_generation/computation.py", (
"""        for i in range(len(verdicts)):
            if verdicts[i]['verdict'] == 'yes':
                aggregate_verdicts[i] = 'yes'
""", """        for i, verdict in enumerate(verdicts):
            if verdict['verdict'] == 'yes':
                aggregate_verdicts[i] = 'yes'
"""))
R("txt-precision-k", "text_generation/computation.py", (
"""    for k in range(1, len(predicted_context) + 1):
        if aggregate_verdicts[k - 1] == 'yes':
            precision_at_k = sum((verdict == 'yes' for verdict in aggregate_verdicts[:k])) / k
            precision_at_k_list.append(precision_at_k)
""", """    for idx in range(len(predicted_context)):
        if aggregate_verdicts[idx] != 'yes':
            continue
        k = idx + 1
        n_yes = sum((verdict == 'yes' for verdict in aggregate_verdicts[:k]))
        precision_at_k_list.append(n_yes / k)
"""))
R("txt-precision-running", "text_generation/computation.py", (
"""    for k in range(1, len(predicted_context) + 1):
        if aggregate_verdicts[k - 1] == 'yes':
            precision_at_k = sum((verdict == 'yes' for verdict in aggregate_verdicts[:k])) / k
            precision_at_k_list.append(precision_at_k)
""", """    n_yes = 0
    for k, verdict in enumerate(aggregate_verdicts, start=1):
        if verdict == 'yes':
            n_yes += 1
            precision_at_k_list.append(n_yes / k)
"""))
R("txt-recall-max", "text_generation/computation.py", (
"""        scores.append(sum((verdict['verdict'] == 'yes' for verdict in verdicts)) / len(verdicts) if len(verdicts) > 0 else 0.0)
""", """        score = 0.0
        if len(verdicts) > 0:
            score = sum((verdict['verdict'] == 'yes' for verdict in verdicts)) / len(verdicts)
        scores.append(score)
"""))
R("txt-correctness", "text_generation/computation.py", (
"""        tp = len(verdicts['TP'])
        fp = len(verdicts['FP'])
        fn = len(verdicts['FN'])
        f1_scores.append(tp / (tp + 0.5 * (fp + fn)) if tp > 0 else 0)
""", """        tp, fp, fn = (len(verdicts[key]) for key in ('TP', 'FP', 'FN'))
        f1 = 0.0
        if tp > 0:
            f1 = tp / (tp + (fp + fn) / 2)
        f1_scores.append(f1)
"""))
R("txt-messages-helper", "text_generation/llm/generation.py", (
"""    messages = [{'role': 'system', 'content': system_prompt}, {'role': 'user', 'content': format_claims_instruction(text=text)}]
    response = _generate(client=client, messages=messages, keys={'claims'}, validator=validate_statements)
    return response['claims']
""", """    messages = _messages(system_prompt, format_claims_instruction(text=text))
    return _generate(client=client, messages=messages, keys={'claims'}, validator=validate_statements)['claims']
"""), ("def generate_claims(", """def _messages(system_prompt, content):
    return [{'role': 'system', 'content': system_prompt}, {'role': 'user', 'content': content}]

def generate_claims("""))
R("txt-validate-loop", "text_generation/llm/validators.py", (
"""    elif allowed_values is not None and (not all([v in allowed_values for v in response[key]])):
        raise""", """    elif allowed_values is not None and any((v not in allowed_values for v in response[key])):
        raise"""))
R("txt-validate-items", "text_generation/llm/validators.py", (
"""    for value in response[key]:
        if not isinstance(value, dict):""", """    verdicts = response[key]
    for value in verdicts:
        if not isinstance(value, dict):"""), ("set(value.keys()) != {'verdict', 'analysis'}", "set(value) != {'analysis', 'verdict'}"))
R("txt-json-return", "text_generation/llm/utilities.py", (
"""    match = re.search('-?\\\\d+', text)
    if not match:
        return None
    return int(match.group())
""", """    match = re.search('-?\\\\d+', text)
    return int(match.group()) if match else None
"""))
R("txt-bleu", "text_generation/computation.py", (
"""    return result if result >= 1e-09 else 0.0
""", """    if result < 1e-09:
        return 0.0
    return result
"""))
R("txt-wrapper-finish", "text_generation/llm/integrations.py", (
"""        response = openai_response.choices[0].message.content
        if openai_response.usage""", """        choice = openai_response.choices[0]
        response = choice.message.content
        if openai_response.usage"""), ("""        finish_reason = openai_response.choices[0].finish_reason
""", """        finish_reason = choice.finish_reason
"""), ("""        if response is None:
            response = ''
        return response
""", """        return '' if response is None else response
"""))

# --- whole blocks written another way
_L = "        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))\n        gt_labels.pop(-1, None)\n        index_to_label.update(gt_labels)\n"
for _n, _f in (("seg", "semantic_segmentation/shared.py"),):
    R(f"big-{_n}-labels-comp", _f, (_L, "        index_to_label.update(\n            {\n                label_id: label\n                for label_id, label in zip(gt_label_ids.astype(int).tolist(), gt_labels)\n                if label_id != -1\n            }\n        )\n"))
    R(f"big-{_n}-labels-loop", _f, (_L, "        for label_id, label in zip(gt_label_ids.astype(int).tolist(), gt_labels):\n            if label_id == -1:\n                continue\n            index_to_label[label_id] = label\n"))
    R(f"big-{_n}-labels-del", _f, (_L, "        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))\n        if -1 in gt_labels:\n            del gt_labels[-1]\n        index_to_label.update(gt_labels)\n"))
_CM = ("            mask_null_gts = ids[:, 1] == -1\n            mask_null_pds = ids[:, 2] == -1\n            confusion_matrix[0, 0] += counts[\n                mask_null_gts & mask_null_pds\n            ].sum()\n            for idx in range(n_labels):\n                mask_gts = ids[:, 1] == idx\n                for pidx in range(n_labels):\n                    mask_pds = ids[:, 2] == pidx\n                    confusion_matrix[idx + 1, pidx + 1] += counts[\n                        mask_gts & mask_pds\n                    ].sum()\n\n                mask_unmatched_gts = mask_gts & mask_null_pds\n                confusion_matrix[idx + 1, 0] += counts[\n                    mask_unmatched_gts\n                ].sum()\n                mask_unmatched_pds = mask_null_gts & (ids[:, 2] == idx)\n                confusion_matrix[0, idx + 1] += counts[\n                    mask_unmatched_pds\n                ].sum()\n")
R("big-seg-addat", "semantic_segmentation/evaluator.py", (_CM, "            np.add.at(confusion_matrix, (ids[:, 1] + 1, ids[:, 2] + 1), counts)\n"))
R("big-seg-rows", "semantic_segmentation/evaluator.py", (_CM, "            for gt_idx, pd_idx, count in zip(ids[:, 1], ids[:, 2], counts):\n                confusion_matrix[gt_idx + 1, pd_idx + 1] += count\n"))
R("big-seg-bincount", "semantic_segmentation/evaluator.py", (_CM, "            width = n_labels + 1\n            flat = (ids[:, 1] + 1) * width + (ids[:, 2] + 1)\n            confusion_matrix += np.bincount(flat, weights=counts, minlength=width * width).reshape(width, width).astype(np.uint64)\n"))
R("big-seg-shifted", "semantic_segmentation/evaluator.py", (_CM, "            for idx in range(-1, n_labels):\n                mask_gts = ids[:, 1] == idx\n                for pidx in range(-1, n_labels):\n                    mask_pds = ids[:, 2] == pidx\n                    confusion_matrix[idx + 1, pidx + 1] += counts[\n                        mask_gts & mask_pds\n                    ].sum()\n"))
R("big-seg-filter-set", "semantic_segmentation/evaluator.py", ("                for gt in np.unique(gt_pairs, axis=0):\n                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                keep = {tuple(row) for row in gt_pairs.tolist()}\n                mask_valid_gt = np.array([tuple(row) in keep for row in gt_ids.tolist()], dtype=np.bool_)"))
R("big-seg-filter-bcast", "semantic_segmentation/evaluator.py", ("                for gt in np.unique(gt_pairs, axis=0):\n                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                unique_gts = np.unique(gt_pairs, axis=0)\n                mask_valid_gt = (gt_ids[:, None, :] == unique_gts[None, :, :]).all(axis=2).any(axis=1)"))
R("big-od-filter-helper", "object_detection/evaluator.py", ("                for gt in np.unique(gt_pairs, axis=0):\n                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                for row in range(n_pairs):\n                    mask_valid_gt[row] = bool((gt_pairs == gt_ids[row]).all(axis=1).any())"))
R("big-cache-sort", "cache/persistent.py", ("            pf = pq.ParquetFile(file)\n            tbl = pf.read()\n            pf.close()\n            sorted_tbl = tbl.sort_by(sorting)\n            pq.write_table(sorted_tbl, file, compression=self._compression)", "            pf = pq.ParquetFile(file)\n            groups = [pf.read_row_group(i) for i in range(pf.num_row_groups)]\n            pf.close()\n            sorted_tbl = pa.concat_tables(groups).sort_by(sorting) if groups else pf.schema_arrow.empty_table()\n            pq.write_table(sorted_tbl, file, compression=self._compression)"))
R("big-cache-next", "cache/persistent.py", ("        files = self.get_dataset_files()\n        if not files:\n            next_index = 0\n        else:\n            next_index = max([int(Path(f).stem) for f in files]) + 1\n        return", "        next_index = 0\n        for f in self.get_dataset_files():\n            next_index = max(next_index, int(f.stem) + 1)\n        return"))
R("big-cache-size", "cache/persistent.py", ("        size = batch.num_rows\n        if self._buffer:\n            size += sum([b.num_rows for b in self._buffer])\n", "        size = sum(b.num_rows for b in (*self._buffer, batch))\n"))
R("big-cache-concat", "cache/persistent.py", ("            combined_arrays = [\n                pa.concat_arrays([b.column(name) for b in self._buffer])\n                for name in self._schema.names\n            ]\n            batch = pa.RecordBatch.from_arrays(\n                combined_arrays, schema=self._schema\n            )", "            combined_arrays = []\n            for name in self._schema.names:\n                parts = []\n                for b in self._buffer:\n                    parts.append(b.column(name))\n                combined_arrays.append(pa.concat_arrays(parts))\n            batch = pa.RecordBatch.from_arrays(\n                combined_arrays, schema=self._schema\n            )"))
R("big-od-mask-iou", "object_detection/computation.py", ("    lhs_sum = lhs.sum(axis=1)\n    rhs_sum = rhs.sum(axis=1)\n\n    intersection_ = np.logical_and(lhs, rhs).sum(axis=1)\n    union_ = lhs_sum + rhs_sum - intersection_\n", "    intersection_ = np.logical_and(lhs, rhs).sum(axis=1)\n    union_ = np.logical_or(lhs, rhs).sum(axis=1)\n"))
R("big-od-rank-dedup", "object_detection/computation.py", ("    _, unique_indices = np.unique(\n        pairs[:, [0, 2, 4]], axis=0, return_index=True\n    )\n    pairs = pairs[unique_indices]\n    indices = indices[unique_indices]\n", "    first = {}\n    for i, key in enumerate(map(tuple, pairs[:, [0, 2, 4]].tolist())):\n        first.setdefault(key, i)\n    unique_indices = np.array([first[key] for key in sorted(first)], dtype=np.intp)\n    pairs = pairs[unique_indices]\n    indices = indices[unique_indices]\n"))
R("big-od-bound-loop", "object_detection/computation.py", ("        iou_boundary[indices[0]] = 0.0\n        iou_boundary[indices[1:]] = ious[indices[:-1]]\n", "        prev = 0.0\n        for i in indices:\n            iou_boundary[i] = prev\n            prev = ious[i]\n"))
R("big-od-bound-best", "object_detection/computation.py", ("        running_max = np.maximum.accumulate(ious[mask_gt])\n        mask_rmax = np.isclose(running_max, ious[mask_gt])\n        mask_rmax[1:] &= running_max[1:] > running_max[:-1]\n        mask_gt[mask_gt] &= mask_rmax\n", "        best = -1.0\n        keep = []\n        for iou in ious[mask_gt]:\n            keep.append(iou > best)\n            best = max(best, iou)\n        mask_gt[mask_gt] &= np.array(keep, dtype=np.bool_)\n"))
R("big-od-fn", "object_detection/evaluator.py", ("        counts[:, :, 2, :] = n_gts_per_lbl - counts[:, :, 0, :]\n", "        for label_idx in range(n_labels):\n            counts[:, :, 2, label_idx] = (\n                n_gts_per_lbl[label_idx] - counts[:, :, 0, label_idx]\n            )\n"))
R("big-seg-counts-where", "semantic_segmentation/shared.py", ("        gt_expr = pc.field(\"gt_label_id\") >= 0\n        if groundtruths is not None:\n            gt_expr &= groundtruths\n        gt_tbl = tbl.filter(gt_expr)\n        n_gts += int(gt_tbl[\"count\"].to_numpy().sum())", "        gt_tbl = tbl.filter(pc.field(\"gt_label_id\") >= 0)\n        if groundtruths is not None:\n            gt_tbl = gt_tbl.filter(groundtruths)\n        n_gts += int(gt_tbl[\"count\"].to_numpy().sum())"))
R("big-seg-recall", "semantic_segmentation/computation.py", ("    recall = np.zeros_like(precision)\n    np.divide(tp_counts, gt_counts, where=gt_counts > 1e-9, out=recall)\n", "    recall = np.where(gt_counts > 0, tp_counts / np.maximum(gt_counts, 1), 0.0)\n"))
R("big-seg-acc", "semantic_segmentation/computation.py", ("    tp_count = confusion_matrix[1:, 1:].diagonal().sum()\n    background_count = confusion_matrix[0, 0]\n    accuracy = (\n        (tp_count + background_count) / n_pixels if n_pixels > 0 else 0.0\n    )\n", "    accuracy = confusion_matrix.trace() / n_pixels if n_pixels > 0 else 0.0\n"))
R("big-seg-f1", "semantic_segmentation/computation.py", ("    np.divide(\n        2 * (precision * recall),\n        (precision + recall),\n        where=(precision + recall) > 0,\n        out=f1_score,\n    )\n", "    for idx in range(n_labels):\n        total = precision[idx] + recall[idx]\n        if total > 0:\n            f1_score[idx] = 2 * precision[idx] * recall[idx] / total\n"))


# --- second batch of whole blocks: classification, detection, cache
_CC, _CU, _CL, _CS, _CE = ("classification/" + _m + ".py" for _m in ("computation", "utilities", "loader", "shared", "evaluator"))
_OC, _OU, _OL, _OE = ("object_detection/" + _m + ".py" for _m in ("computation", "utilities", "loader", "evaluator"))
_DIV = """    np.divide(
        counts[:, :, 0],
        (counts[:, :, 0] + counts[:, :, 1]),
        where=(counts[:, :, 0] + counts[:, :, 1]) > 0,
        out=precision,
    )
"""
R("big2-cl-prec-where", _CC, (_DIV, """    tp = counts[:, :, 0]
    total = tp + counts[:, :, 1]
    precision = np.where(total > 0, tp / np.maximum(total, 1), 0.0)
"""))
R("big2-cl-prec-loop", _CC, (_DIV, """    for i in range(n_scores):
        for j in range(n_labels):
            tp, fp = counts[i, j, 0], counts[i, j, 1]
            if tp + fp > 0:
                precision[i, j] = tp / (tp + fp)
"""))
R("big2-cl-prec-mask", _CC, (_DIV, """    tp = counts[:, :, 0]
    total = tp + counts[:, :, 1]
    valid = total > 0
    precision[valid] = tp[valid] / total[valid]
"""))
R("big2-cl-ratio-helper", _CC, (_DIV, """    _ratio(counts[:, :, 0], counts[:, :, 0] + counts[:, :, 1], precision)
"""), ("""    np.divide(
        counts[:, :, 0],
        (counts[:, :, 0] + counts[:, :, 2]),
        where=(counts[:, :, 0] + counts[:, :, 2]) > 0,
        out=recall,
    )
""", """    _ratio(counts[:, :, 0], counts[:, :, 0] + counts[:, :, 2], recall)
"""), ("def compute_precision(", """def _ratio(num, den, out):
    np.divide(num, den, where=den > 0, out=out)
def compute_precision("""))
R("big2-cl-f1-harm", _CC, ("""    f1_score = np.zeros_like(recall)
    np.divide(
        (2 * precision * recall),
        (precision + recall),
        where=(precision + recall) > 1e-9,
        out=f1_score,
    )
    return f1_score
""", """    total = precision + recall
    safe = np.where(total > 1e-9, total, 1.0)
    return np.where(total > 1e-9, 2 * precision * recall / safe, 0.0)
"""))
R("big2-cl-acc", _CC, ("""    accuracy = np.zeros(n_scores, dtype=np.float64)
    if n_datums == 0:
        return accuracy
    np.divide(
        counts[:, :, 0].sum(axis=1),
        n_datums,
        out=accuracy,
    )
    return accuracy
""", """    if n_datums == 0:
        return np.zeros(n_scores, dtype=np.float64)
    return counts[..., 0].sum(axis=-1) / n_datums
"""))
R("big2-cl-acc-loop", _CC, ("""    np.divide(
        counts[:, :, 0].sum(axis=1),
        n_datums,
        out=accuracy,
    )
    return accuracy
""", """    for idx in range(n_scores):
        accuracy[idx] = counts[idx, :, 0].sum() / n_datums
    return accuracy
"""))
R("big2-cl-counts-addat", _CC, ("""        counts[score_idx, :, 0] = np.bincount(
            pd_labels[mask_tp], minlength=n_labels
        )
        counts[score_idx, :, 1] = np.bincount(
            pd_labels[mask_fp], minlength=n_labels
        )
""", """        np.add.at(counts[score_idx, :, 0], pd_labels[mask_tp], 1)
        np.add.at(counts[score_idx, :, 1], pd_labels[mask_fp], 1)
"""))
R("big2-cl-counts-loop", _CC, ("""        counts[score_idx, :, 0] = np.bincount(
            pd_labels[mask_tp], minlength=n_labels
        )
""", """        for label_idx in range(n_labels):
            counts[score_idx, label_idx, 0] = (mask_tp & (pd_labels == label_idx)).sum()
"""))
R("big2-cl-counts-fn-set", _CC, ("""        fn = np.unique(ids[mask_fn][:, [0, 1]].astype(int), axis=0)
""", """        fn = np.array(
            sorted({(int(row[0]), int(row[1])) for row in ids[mask_fn]}), dtype=int
        ).reshape(-1, 2)
"""))
R("big2-cl-unmatched-isin", _CC, ("""        mask_unmatched_groundtruths = ~(
            (
                groundtruths.reshape(-1, 1, 2)
                == groundtruths[mask_score].reshape(1, -1, 2)
            )
            .all(axis=2)
            .any(axis=1)
        )
""", """        matched = {tuple(row) for row in groundtruths[mask_score].tolist()}
        mask_unmatched_groundtruths = np.array(
            [tuple(row) not in matched for row in groundtruths.tolist()], dtype=np.bool_
        )
"""))
R("big2-cl-unmatched-loop", _CC, ("""        mask_unmatched_groundtruths = ~(
            (
                groundtruths.reshape(-1, 1, 2)
                == groundtruths[mask_score].reshape(1, -1, 2)
            )
            .all(axis=2)
            .any(axis=1)
        )
""", """        mask_unmatched_groundtruths = np.ones(n_pairs, dtype=np.bool_)
        for gt in np.unique(groundtruths[mask_score], axis=0):
            mask_unmatched_groundtruths &= ~(groundtruths == gt).all(axis=1)
"""))
R("big2-cl-masks-direct", _CC, ("""        # classify pairings
        pair_classifications[score_idx, mask_true_positives] |= np.uint8(
            PairClassification.TP
        )
        pair_classifications[score_idx, mask_misclassifications] |= np.uint8(
            PairClassification.FP_FN_MISCLF
        )
        pair_classifications[
            score_idx, mask_unmatched_groundtruths
        ] |= np.uint8(PairClassification.FN_UNMATCHED)
    mask_tp = np.bitwise_and(pair_classifications, PairClassification.TP) > 0
    mask_fp_fn_misclf = (
        np.bitwise_and(pair_classifications, PairClassification.FP_FN_MISCLF)
        > 0
    )
    mask_fn_unmatched = (
        np.bitwise_and(pair_classifications, PairClassification.FN_UNMATCHED)
        > 0
    )
""", """        mask_tp[score_idx] = mask_true_positives
        mask_fp_fn_misclf[score_idx] = mask_misclassifications
        mask_fn_unmatched[score_idx] = mask_unmatched_groundtruths
"""), ("""    pair_classifications = np.zeros(
        (n_scores, n_pairs),
        dtype=np.uint8,
    )
""", """    mask_tp = np.zeros((n_scores, n_pairs), dtype=np.bool_)
    mask_fp_fn_misclf = np.zeros((n_scores, n_pairs), dtype=np.bool_)
    mask_fn_unmatched = np.zeros((n_scores, n_pairs), dtype=np.bool_)
"""))
R("big2-cl-cm-addat", _CC, ("""        unique_labels, unique_label_counts = np.unique(
            unique_pairs[:, (1, 2)], axis=0, return_counts=True
        )
        confusion_matrices[
            score_idx, unique_labels[:, 0], unique_labels[:, 1]
        ] = unique_label_counts
""", """        np.add.at(
            confusion_matrices[score_idx],
            (unique_pairs[:, 1], unique_pairs[:, 2]),
            1,
        )
"""))
R("big2-cl-cm-rows", _CC, ("""        unique_labels, unique_label_counts = np.unique(
            unique_pairs[:, (1, 2)], axis=0, return_counts=True
        )
        confusion_matrices[
            score_idx, unique_labels[:, 0], unique_labels[:, 1]
        ] = unique_label_counts
""", """        for _, gidx, pidx in unique_pairs:
            confusion_matrices[score_idx, gidx, pidx] += 1
"""))
R("big2-cl-cm-ugt-bincount", _CC, ("""        unique_labels, unique_label_counts = np.unique(
            unique_pairs[:, 1], return_counts=True
        )
        unmatched_groundtruths[score_idx, unique_labels] = unique_label_counts
""", """        unmatched_groundtruths[score_idx, :] = np.bincount(
            unique_pairs[:, 1], minlength=n_labels
        )
"""))
R("big2-cl-roc-manual", _CC, ("""        rocauc[label_idx] += npc.trapezoid(x=fpr, y=tpr, axis=0)
""", """        rocauc[label_idx] += (np.diff(fpr) * (tpr[1:] + tpr[:-1]) / 2).sum()
"""))
R("big2-cl-roc-fpr-if", _CC, ("""        fpr = np.zeros_like(fps, dtype=np.float64)
        np.divide(
            fps,
            negative_count[label_idx],
            where=negative_count[label_idx] > 0,
            out=fpr,
        )
""", """        if negative_count[label_idx] > 0:
            fpr = fps / negative_count[label_idx]
        else:
            fpr = np.zeros(fps.shape, dtype=np.float64)
"""))
R("big2-cl-unpack-cm-comp", _CU, ("""        cm_dict = {}
        ugt_dict = {}
        for idx, label in index_to_label.items():
            ugt_dict[label] = int(unmatched_groundtruths[score_idx, idx])
            for pidx, plabel in index_to_label.items():
                if label not in cm_dict:
                    cm_dict[label] = {}
                cm_dict[label][plabel] = int(
                    confusion_matrices[score_idx, idx, pidx]
                )
""", """        cm_dict = {
            label: {
                plabel: int(confusion_matrices[score_idx, idx, pidx])
                for pidx, plabel in index_to_label.items()
            }
            for idx, label in index_to_label.items()
        }
        ugt_dict = {
            label: int(unmatched_groundtruths[score_idx, idx])
            for idx, label in index_to_label.items()
        }
"""))
R("big2-cl-unpack-cm-setdefault", _CU, ("""                if label not in cm_dict:
                    cm_dict[label] = {}
                cm_dict[label][plabel] = int(
                    confusion_matrices[score_idx, idx, pidx]
                )
""", """                cm_dict.setdefault(label, {})[plabel] = int(
                    confusion_matrices[score_idx, idx, pidx]
                )
"""))
R("big2-cl-unpack-acc-loop", _CU, ("""    metrics[MetricType.Accuracy] = [
        Metric.accuracy(
            value=float(accuracy[score_idx]),
            score_threshold=score_threshold,
            hardmax=hardmax,
        )
        for score_idx, score_threshold in enumerate(score_thresholds)
    ]
""", """    for value, score_threshold in zip(accuracy.tolist(), score_thresholds):
        metrics[MetricType.Accuracy].append(
            Metric.accuracy(
                value=value,
                score_threshold=score_threshold,
                hardmax=hardmax,
            )
        )
"""))
R("big2-cl-unpack-product", _CU, ("""    for label_idx, label in index_to_label.items():
        for score_idx, score_threshold in enumerate(score_thresholds):
            kwargs = {
                "label": label,
                "hardmax": hardmax,
                "score_threshold": score_threshold,
            }
            row = counts[:, label_idx]
            metrics[MetricType.Counts].append(
                Metric.counts(
                    tp=int(row[score_idx, 0]),
                    fp=int(row[score_idx, 1]),
                    fn=int(row[score_idx, 2]),
                    tn=int(row[score_idx, 3]),
                    **kwargs,
                )
            )
""", """    for label_idx, label in index_to_label.items():
        for score_idx, score_threshold in enumerate(score_thresholds):
            kwargs = dict(
                label=label,
                hardmax=hardmax,
                score_threshold=score_threshold,
            )
            tp, fp, fn, tn = counts[score_idx, label_idx].tolist()
            metrics[MetricType.Counts].append(
                Metric.counts(tp=tp, fp=fp, fn=fn, tn=tn, **kwargs)
            )
"""))
R("big2-cl-mapping-loop", _CU, ("""    values, indices = np.unique(col, return_index=True)
    indices = indices[values >= 0]
    return {
        tbl[id_col][idx].as_py(): tbl[uid_col][idx].as_py() for idx in indices
    }
""", """    mapping = {}
    for value, idx in zip(*np.unique(col, return_index=True)):
        if value < 0:
            continue
        mapping[tbl[id_col][idx].as_py()] = tbl[uid_col][idx].as_py()
    return mapping
"""))
R("big2-cl-mapping-take", _CU, ("""    return {
        tbl[id_col][idx].as_py(): tbl[uid_col][idx].as_py() for idx in indices
    }
""", """    rows = tbl.take(indices)
    return dict(zip(rows[id_col].to_pylist(), rows[uid_col].to_pylist()))
"""))
R("big2-cl-examples-loop", _CU, ("""            tp = [index_to_label[row[1]] for row in unique_tp]
            fp = [
                index_to_label[row[1]]
                for row in unique_fp
                if index_to_label[row[1]] not in tp
            ]
            fn = [
                index_to_label[row[1]]
                for row in unique_fn
                if index_to_label[row[1]] not in tp
            ]
""", """            tp = [index_to_label[row[1]] for row in unique_tp]
            seen = set(tp)
            fp, fn = [], []
            for rows, out in ((unique_fp, fp), (unique_fn, fn)):
                for row in rows:
                    label = index_to_label[row[1]]
                    if label in seen:
                        continue
                    out.append(label)
"""))
R("big2-cl-empty-comp", _CU, ("""    unmatched_groundtruths = dict()
    confusion_matrix = dict()
    for label in index_to_label.values():
        unmatched_groundtruths[label] = {"count": 0, "examples": []}
        confusion_matrix[label] = {}
        for plabel in index_to_label.values():
            confusion_matrix[label][plabel] = {"count": 0, "examples": []}
""", """    labels = list(index_to_label.values())
    unmatched_groundtruths = {
        label: {"count": 0, "examples": []} for label in labels
    }
    confusion_matrix = {
        label: {plabel: {"count": 0, "examples": []} for plabel in labels}
        for label in labels
    }
"""))
R("big2-cl-cmex-split", _CU, ("""    n_max = max(n_matched, n_unmatched_groundtruths)
    for idx in range(n_max):
        if idx < n_matched:
            datum_id = index_to_datum_id[unique_matches[idx, 0]]
            glabel = index_to_label[unique_matches[idx, 1]]
            plabel = index_to_label[unique_matches[idx, 2]]
            score = float(scores[idx])
            metric.value["confusion_matrix"][glabel][plabel]["count"] += 1
            metric.value["confusion_matrix"][glabel][plabel][
                "examples"
            ].append(
                {
                    "datum_id": datum_id,
                    "score": score,
                }
            )
        if idx < n_unmatched_groundtruths:
            datum_id = index_to_datum_id[unique_unmatched_groundtruths[idx, 0]]
            label = index_to_label[unique_unmatched_groundtruths[idx, 1]]
            metric.value["unmatched_ground_truths"][label]["count"] += 1
            metric.value["unmatched_ground_truths"][label]["examples"].append(
                {"datum_id": datum_id}
            )
""", """    for idx in range(n_matched):
        datum_idx, gidx, pidx = unique_matches[idx]
        cell = metric.value["confusion_matrix"][index_to_label[gidx]][
            index_to_label[pidx]
        ]
        cell["count"] += 1
        cell["examples"].append(
            {
                "datum_id": index_to_datum_id[datum_idx],
                "score": float(scores[idx]),
            }
        )
    for idx in range(n_unmatched_groundtruths):
        datum_idx, gidx = unique_unmatched_groundtruths[idx]
        cell = metric.value["unmatched_ground_truths"][index_to_label[gidx]]
        cell["count"] += 1
        cell["examples"].append({"datum_id": index_to_datum_id[datum_idx]})
"""))
R("big2-cl-addlabel", _CL, ("""        idx = self._labels.get(value, None)
        if idx is None:
            idx = len(self._labels)
            self._labels[value] = idx
            self._index_to_label[idx] = value
        return idx
""", """        if value not in self._labels:
            idx = len(self._labels)
            self._labels[value] = idx
            self._index_to_label[idx] = value
        return self._labels[value]
"""))
R("big2-cl-addlabel-setdefault", _CL, ("""        idx = self._labels.get(value, None)
        if idx is None:
            idx = len(self._labels)
            self._labels[value] = idx
            self._index_to_label[idx] = value
        return idx
""", """        idx = self._labels.setdefault(value, len(self._labels))
        self._index_to_label.setdefault(idx, value)
        return idx
"""))
R("big2-cl-load-comp", _CL, ("""                rows.append(
                    {
                        # metadata
                        **datum_metadata,
                        # datum
                        "datum_uid": classification.uid,
                        "datum_id": self._datum_count,
                        # groundtruth
                        "gt_label": classification.groundtruth,
                        "gt_label_id": gidx,
                        # prediction
                        "pd_label": plabel,
                        "pd_label_id": pidx,
                        "pd_score": float(score),
                        "pd_winner": max_score_idx == idx,
                        # pair
                        "match": (gidx == pidx) and pidx >= 0,
                    }
                )
""", """                row = dict(datum_metadata)
                row.update(
                    datum_uid=classification.uid,
                    datum_id=self._datum_count,
                    gt_label=classification.groundtruth,
                    gt_label_id=gidx,
                    pd_label=plabel,
                    pd_label_id=pidx,
                    pd_score=float(score),
                    pd_winner=idx == max_score_idx,
                    match=gidx == pidx and pidx >= 0,
                )
                rows.append(row)
"""))
R("big2-cl-load-base", _CL, ("""                        # metadata
                        **datum_metadata,
                        # datum
                        "datum_uid": classification.uid,
                        "datum_id": self._datum_count,
                        # groundtruth
                        "gt_label": classification.groundtruth,
                        "gt_label_id": gidx,
""", """                        **base,
"""), ("""            max_score_idx = np.argmax(np.array(classification.scores))
""", """            max_score_idx = np.argmax(np.array(classification.scores))
            base = {
                **datum_metadata,
                "datum_uid": classification.uid,
                "datum_id": self._datum_count,
                "gt_label": classification.groundtruth,
                "gt_label_id": gidx,
            }
"""))
R("big2-cl-load-argmax", _CL, ("""            max_score_idx = np.argmax(np.array(classification.scores))
""", """            max_score_idx = max(
                range(len(classification.scores)),
                key=lambda i: classification.scores[i],
            )
"""))
R("big2-cl-labels-helper", _CS, ("""        # get gt labels
        gt_label_ids = tbl["gt_label_id"].to_numpy()
        gt_label_ids, gt_indices = np.unique(gt_label_ids, return_index=True)
        gt_labels = tbl["gt_label"].take(gt_indices).to_pylist()
        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))
        gt_labels.pop(-1, None)
        index_to_label.update(gt_labels)
        # get pd labels
        pd_label_ids = tbl["pd_label_id"].to_numpy()
        pd_label_ids, pd_indices = np.unique(pd_label_ids, return_index=True)
        pd_labels = tbl["pd_label"].take(pd_indices).to_pylist()
        pd_labels = dict(zip(pd_label_ids.astype(int).tolist(), pd_labels))
        pd_labels.pop(-1, None)
        index_to_label.update(pd_labels)
""", """        for prefix in ("gt", "pd"):
            ids, first = np.unique(
                tbl[f"{prefix}_label_id"].to_numpy(), return_index=True
            )
            names = tbl[f"{prefix}_label"].take(first).to_pylist()
            for label_id, name in zip(ids.astype(int).tolist(), names):
                if label_id != -1:
                    index_to_label[label_id] = name
"""))
R("big2-cl-count-addat", _CS, ("""        unique_gt_labels, gt_label_counts = np.unique(
            unique_gts[:, 1], return_counts=True
        )
        label_counts[unique_gt_labels, 0] += gt_label_counts.astype(np.uint64)
""", """        np.add.at(label_counts[:, 0], unique_gts[:, 1], 1)
"""))
R("big2-cl-count-bincount", _CS, ("""        unique_gt_labels, gt_label_counts = np.unique(
            unique_gts[:, 1], return_counts=True
        )
        label_counts[unique_gt_labels, 0] += gt_label_counts.astype(np.uint64)
""", """        label_counts[:, 0] += np.bincount(
            unique_gts[:, 1], minlength=number_of_labels
        ).astype(np.uint64)
"""))
R("big2-cl-count-datums", _CS, ("""        n_dts += int(np.unique(tbl["datum_id"].to_numpy()).shape[0])
""", """        n_dts += len(pc.unique(tbl["datum_id"]))
"""))
R("big2-cl-count-datums-set", _CS, ("""    n_dts = 0
    for tbl in reader.iterate_tables(filter=datums):
        n_dts += int(np.unique(tbl["datum_id"].to_numpy()).shape[0])
    return n_dts
""", """    return sum(
        len(set(tbl["datum_id"].to_pylist()))
        for tbl in reader.iterate_tables(filter=datums)
    )
"""))
R("big2-cl-schema-loop", _CS, ("""    reserved_field_names = {f[0] for f in reserved_fields}
    metadata_field_names = {f[0] for f in metadata_fields}
    if conflicting := reserved_field_names & metadata_field_names:
""", """    reserved_field_names = {name for name, _ in reserved_fields}
    conflicting = {
        name for name, _ in metadata_fields if name in reserved_field_names
    }
    if conflicting:
"""))
R("big2-cl-decode", _CS, ("""    return [(k, v) for k, v in encoded_metadata_fields.items()]
""", """    return list(encoded_metadata_fields.items())
"""))
R("big2-cl-filter-join", _CE, ("""                for gt in np.unique(gt_pairs, axis=0):
                    mask_valid_gt |= (gt_ids == gt).all(axis=1)
""", """                keep = set(map(tuple, gt_pairs.tolist()))
                for i, row in enumerate(gt_ids.tolist()):
                    mask_valid_gt[i] = tuple(row) in keep
"""))
R("big2-cl-filter-helper", _CE, ("""                mask_valid_gt = np.zeros(n_pairs, dtype=np.bool_)
                gt_tbl = tbl.filter(groundtruths)
                gt_pairs = np.column_stack(
                    [
                        gt_tbl[col].to_numpy()
                        for col in ("datum_id", "gt_label_id")
                    ]
                ).astype(np.int64)
                for gt in np.unique(gt_pairs, axis=0):
                    mask_valid_gt |= (gt_ids == gt).all(axis=1)
""", """                mask_valid_gt = _mask_rows(
                    tbl, groundtruths, gt_ids, ("datum_id", "gt_label_id")
                )
"""), ("""                mask_valid_pd = np.zeros(n_pairs, dtype=np.bool_)
                pd_tbl = tbl.filter(predictions)
                pd_pairs = np.column_stack(
                    [
                        pd_tbl[col].to_numpy()
                        for col in ("datum_id", "pd_label_id")
                    ]
                ).astype(np.int64)
                for pd in np.unique(pd_pairs, axis=0):
                    mask_valid_pd |= (pd_ids == pd).all(axis=1)
""", """                mask_valid_pd = _mask_rows(
                    tbl, predictions, pd_ids, ("datum_id", "pd_label_id")
                )
"""), ("class Builder:\n", """def _mask_rows(tbl, expr, ids, columns):
    kept = tbl.filter(expr)
    pairs = np.column_stack([kept[col].to_numpy() for col in columns]).astype(np.int64)
    mask = np.zeros(ids.shape[0], dtype=np.bool_)
    for pair in np.unique(pairs, axis=0):
        mask |= (ids == pair).all(axis=1)
    return mask
class Builder:
"""))
R("big2-cl-roc-mean", _CE, ("        mean_rocauc = rocauc.mean()\n", "        mean_rocauc = rocauc.sum() / rocauc.size\n"))
R("big2-cl-roc-rest", _CE, ("""        for idx in range(n_labels):
            last_fp = last_pair[idx, 0]
            last_tp = last_pair[idx, 1]
            if (
                last_fp != running_max_fp[idx]
                or last_tp != running_max_tp[idx]
            ):
                self._roc_curve_writer.write_rows(
                    [
                        {
                            "pd_label_id": idx,
                            "cumulative_fp": running_max_fp[idx],
                            "cumulative_tp": running_max_tp[idx],
                        }
                    ]
                )
""", """        pending = np.where(
            (last_pair[:, 0] != running_max_fp)
            | (last_pair[:, 1] != running_max_tp)
        )[0]
        for idx in pending.tolist():
            row = {
                "pd_label_id": idx,
                "cumulative_fp": running_max_fp[idx],
                "cumulative_tp": running_max_tp[idx],
            }
            self._roc_curve_writer.write_rows([row])
"""))
R("big2-cl-roc-batchrows", _CE, ("""                for fp, tp in zip(
                    cumulative_fp[indices],
                    cumulative_tp[indices],
                ):
                    last_pair[idx, 0] = fp
                    last_pair[idx, 1] = tp
                    self._roc_curve_writer.write_rows(
                        [
                            {
                                "pd_label_id": idx,
                                "cumulative_fp": fp,
                                "cumulative_tp": tp,
                            }
                        ]
                    )
""", """                for k in indices:
                    last_pair[idx] = (cumulative_fp[k], cumulative_tp[k])
                    self._roc_curve_writer.write_rows(
                        [
                            {
                                "pd_label_id": idx,
                                "cumulative_fp": cumulative_fp[k],
                                "cumulative_tp": cumulative_tp[k],
                            }
                        ]
                    )
"""))
R("big2-cl-examples-comp", _CE, ("""            ids = np.column_stack(
                [
                    tbl[col].to_numpy()
                    for col in [
                        "datum_id",
                        "gt_label_id",
                        "pd_label_id",
                    ]
                ]
            )
""", """            ids = np.stack(
                (
                    tbl["datum_id"].to_numpy(),
                    tbl["gt_label_id"].to_numpy(),
                    tbl["pd_label_id"].to_numpy(),
                ),
                axis=1,
            )
"""))
R("big2-od-iou-clip", _OC, ("""    intersection_width = np.maximum(0, xmax - xmin)
    intersection_height = np.maximum(0, ymax - ymin)
""", """    intersection_width = np.clip(xmax - xmin, 0, None)
    intersection_height = np.clip(ymax - ymin, 0, None)
"""))
R("big2-od-iou-where", _OC, ("""    ious = np.zeros(n_pairs, dtype=np.float64)
    np.divide(
        intersection_area,
        union_area,
        where=union_area >= EPSILON,
        out=ious,
    )
    return ious
""", """    valid = union_area >= EPSILON
    return np.where(valid, intersection_area / np.where(valid, union_area, 1.0), 0.0)
"""))
R("big2-od-iou-loop", _OC, ("""    ious = np.zeros(n_pairs, dtype=np.float64)
    np.divide(
        intersection_area,
        union_area,
        where=union_area >= EPSILON,
        out=ious,
    )
    return ious
""", """    return np.array(
        [
            inter / union if union >= EPSILON else 0.0
            for inter, union in zip(intersection_area, union_area)
        ],
        dtype=np.float64,
    )
"""))
R("big2-od-iou-poly-area", _OC, ("""    unions = shapely.union(lhs, rhs)
    union_areas = shapely.area(unions)
""", """    union_areas = shapely.area(lhs) + shapely.area(rhs) - intersection_areas
"""))
R("big2-od-ar-manual", _OC, ("""    average_recall = recall.mean(axis=0)
    mAR = average_recall.mean(axis=-1)
""", """    average_recall = recall.sum(axis=0) / recall.shape[0]
    mAR = average_recall.sum(axis=1) / average_recall.shape[1]
"""))
R("big2-od-greedy-sets", _OC, ("""        if not (gidx < 0 or pidx < 0 or used_gt[gidx] or used_pd[pidx]):
            keep[idx] = True
            used_gt[gidx] = True
            used_pd[pidx] = True
""", """        if gidx < 0 or pidx < 0:
            continue
        if gidx in seen_gt or pidx in seen_pd:
            continue
        keep[idx] = True
        seen_gt.add(gidx)
        seen_pd.add(pidx)
"""), ("""    max_gt = groundtruths.max()
    max_pd = predictions.max()
    used_gt = np.zeros(max_gt + 1, dtype=np.bool_)
    used_pd = np.zeros(max_pd + 1, dtype=np.bool_)
""", """    seen_gt, seen_pd = set(), set()
"""))
R("big2-od-cm-addat", _OC, ("""            unique_labels, unique_label_counts = np.unique(
                unique_pairs[:, (3, 4)], axis=0, return_counts=True
            )
            confusion_matrices[
                iou_idx, score_idx, unique_labels[:, 0], unique_labels[:, 1]
            ] = unique_label_counts
""", """            np.add.at(
                confusion_matrices[iou_idx, score_idx],
                (unique_pairs[:, 3], unique_pairs[:, 4]),
                1,
            )
"""))
R("big2-od-f1-where", _OC, ("""    np.divide(
        2 * np.multiply(p, r),
        (p + r),
        where=(p + r) > EPSILON,
        out=prec_rec_f1[:, :, 2, :],
    )
""", """    total = p + r
    valid = total > EPSILON
    prec_rec_f1[:, :, 2, :][valid] = 2 * p[valid] * r[valid] / total[valid]
"""))
R("big2-od-counts-arange", _OC, ("""            running_total_count[iou_idx, mask_pd_label] = np.arange(
                running_counts[iou_idx, pd_label, 0] + 1,
                running_counts[iou_idx, pd_label, 0] + total_count + 1,
            )
            running_counts[iou_idx, pd_label, 0] += total_count
""", """            start = running_counts[iou_idx, pd_label, 0]
            running_total_count[iou_idx, mask_pd_label] = start + np.arange(
                1, total_count + 1, dtype=np.uint64
            )
            running_counts[iou_idx, pd_label, 0] = start + np.uint64(total_count)
"""))
R("big2-od-counts-unique-map", _OC, ("""            _, indices_gt_unique = np.unique(
                tp_candidates[:, [0, 1, 3]], axis=0, return_index=True
            )
            mask_gt_unique = np.zeros(tp_candidates.shape[0], dtype=np.bool_)
            mask_gt_unique[indices_gt_unique] = True
""", """            seen = set()
            mask_gt_unique = np.zeros(tp_candidates.shape[0], dtype=np.bool_)
            for row_idx, row in enumerate(tp_candidates[:, [0, 1, 3]].tolist()):
                if tuple(row) not in seen:
                    seen.add(tuple(row))
                    mask_gt_unique[row_idx] = True
"""))
R("big2-od-counts-addat", _OC, ("""            counts[iou_idx, score_idx, 0, :] = np.bincount(
                pd_labels,
                weights=true_positives_mask,
                minlength=n_labels,
            )
""", """            counts[iou_idx, score_idx, 0, :] = np.bincount(
                pd_labels[true_positives_mask],
                minlength=n_labels,
            )
"""))
R("big2-od-pr-addat", _OC, ("""        pr_curve[iou_idx, li, ri, 1] = np.maximum(
            pr_curve[iou_idx, li, ri, 1],
            scores[recall_indices],
        )
""", """        for label_idx, recall_idx, row_idx in zip(li, ri, recall_indices):
            pr_curve[iou_idx, label_idx, recall_idx, 1] = max(
                pr_curve[iou_idx, label_idx, recall_idx, 1], scores[row_idx]
            )
"""))
R("big2-od-unpack-cm", _OU, ("""                for pidx, plabel in index_to_label.items():
                    if label not in cm_dict:
                        cm_dict[label] = {}
                    cm_dict[label][plabel] = int(
                        confusion_matrices[iou_idx, score_idx, idx, pidx]
                    )
""", """                cm_dict[label] = {
                    plabel: int(confusion_matrices[iou_idx, score_idx, idx, pidx])
                    for pidx, plabel in index_to_label.items()
                }
"""))
R("big2-od-unpack-ap-loop", _OU, ("""    metrics[MetricType.AP] = [
        Metric.average_precision(
            value=float(average_precision[iou_idx][label_idx]),
            iou_threshold=iou_threshold,
            label=label,
        )
        for iou_idx, iou_threshold in enumerate(iou_thresholds)
        for label_idx, label in index_to_label.items()
    ]
""", """    for iou_idx, iou_threshold in enumerate(iou_thresholds):
        for label_idx, label in index_to_label.items():
            metrics[MetricType.AP].append(
                Metric.average_precision(
                    value=float(average_precision[iou_idx, label_idx]),
                    iou_threshold=iou_threshold,
                    label=label,
                )
            )
"""))
R("big2-od-unpack-avg-hoist", _OU, ("""    metrics[MetricType.APAveragedOverIOUs] = [
        Metric.average_precision_averaged_over_IOUs(
            value=float(average_precision.mean(axis=0)[label_idx]),
""", """    ap_over_ious = average_precision.sum(axis=0) / average_precision.shape[0]
    metrics[MetricType.APAveragedOverIOUs] = [
        Metric.average_precision_averaged_over_IOUs(
            value=float(ap_over_ious[label_idx]),
"""))
R("big2-od-cmex-helper", _OU, ("""            label = index_to_label[unique_unmatched_groundtruths[idx, 2]]
            metric.value["unmatched_ground_truths"][label]["count"] += 1
            metric.value["unmatched_ground_truths"][label]["examples"].append(
                {
                    "datum_id": index_to_datum_id[
                        unique_unmatched_groundtruths[idx, 0]
                    ],
                    "ground_truth_id": index_to_groundtruth_id[
                        unique_unmatched_groundtruths[idx, 1]
                    ],
                }
            )
""", """            datum_idx, gt_idx, label_idx = unique_unmatched_groundtruths[idx]
            _add_example(
                metric.value["unmatched_ground_truths"][index_to_label[label_idx]],
                datum_id=index_to_datum_id[datum_idx],
                ground_truth_id=index_to_groundtruth_id[gt_idx],
            )
"""), ("def _unpack_confusion_matrix_with_examples(", """def _add_example(cell, **example):
    cell["count"] += 1
    cell["examples"].append(example)
def _unpack_confusion_matrix_with_examples("""))
R("big2-od-unpack-zip", _OU, ("""                tp = [
                    (
                        index_to_groundtruth_id[row[1]],
                        index_to_prediction_id[row[2]],
                    )
                    for row in unique_tp
                ]
                fp = [index_to_prediction_id[row[1]] for row in unique_fp]
                fn = [index_to_groundtruth_id[row[1]] for row in unique_fn]
""", """                tp = []
                for _, gt_idx, pd_idx, _, _ in unique_tp:
                    tp.append((index_to_groundtruth_id[gt_idx], index_to_prediction_id[pd_idx]))
                fp = [index_to_prediction_id[i] for i in unique_fp[:, 1]]
                fn = list(map(index_to_groundtruth_id.__getitem__, unique_fn[:, 1]))
"""))
R("big2-od-load-ious", _OL, ("""                np.array(
                    [
                        [gt.extrema, pd.extrema]
                        for pd in detection.predictions
                        for gt in detection.groundtruths
                    ],
                    dtype=np.float64,
                )
""", """                np.array(
                    [
                        (gt.extrema, pd.extrema)
                        for pd, gt in itertools.product(
                            detection.predictions, detection.groundtruths
                        )
                    ],
                    dtype=np.float64,
                )
"""), ("import numpy as np\n", "import itertools\nimport numpy as np\n"))
R("big2-od-load-any", _OL, ("                    if (ious[:, gidx] < EPSILON).all():\n", "                    if not (ious[:, gidx] >= EPSILON).any():\n"), ("                        if (ious[pidx, :] < EPSILON).all():\n", "                        if not (ious[pidx, :] >= EPSILON).any():\n"))
R("big2-od-load-early", _OL, ("""            elif detection.predictions:
                for pidx, pann in enumerate(detection.predictions):
""", """            else:
                for pidx, pann in enumerate(detection.predictions):
"""))
R("big2-od-load-counts-enum", _OL, ("""        for detection, ious in tqdm(
            zip(detections, detection_ious), disable=disable_tqdm
        ):
            # cache labels and annotation pairs
            datum_idx = self._datum_count
""", """        for datum_idx, (detection, ious) in enumerate(
            tqdm(zip(detections, detection_ious), disable=disable_tqdm),
            start=self._datum_count,
        ):
"""))
_MK = """        args = [
            -batches[batch_idx][name][row_idx].as_py()
            if direction == "descending"
            else batches[batch_idx][name][row_idx].as_py()
            for name, direction in sorting
        ]
        return (
            *args,
            batch_idx,
            row_idx,
        )
"""
R("big2-cache-key-sign", "cache/compute.py", (_MK, """        batch = batches[batch_idx]
        key = []
        for name, direction in sorting:
            value = batch[name][row_idx].as_py()
            key.append(-value if direction == "descending" else value)
        return tuple(key) + (batch_idx, row_idx)
"""))
R("big2-cache-key-mult", "cache/compute.py", (_MK, """        signs = [-1 if direction == "descending" else 1 for _, direction in sorting]
        args = [
            sign * batches[batch_idx][name][row_idx].as_py()
            for sign, (name, _) in zip(signs, sorting)
        ]
        return (*args, batch_idx, row_idx)
"""))
R("big2-cache-merge-pushhelper", "cache/compute.py", ("""        row_idx += 1
        if row_idx < len(batches[batch_idx]):
            heapq.heappush(
                heap,
                create_sort_key(batches, batch_idx, row_idx),
            )
        else:
            batches[batch_idx] = next(batch_iterators[batch_idx], None)
            if batches[batch_idx] is not None and len(batches[batch_idx]) > 0:
                heapq.heappush(
                    heap,
                    create_sort_key(batches, batch_idx, 0),
                )
""", """        next_row = row_idx + 1
        if next_row >= len(batches[batch_idx]):
            next_row = 0
            batches[batch_idx] = next(batch_iterators[batch_idx], None)
            if not batches[batch_idx]:
                continue
        heapq.heappush(heap, create_sort_key(batches, batch_idx, next_row))
"""))
R("big2-cache-merge-heap0", "cache/compute.py", ("""        if batches[batch_idx] is not None and len(batches[batch_idx]) > 0:
            heap.append(create_sort_key(batches, batch_idx, 0))
    heapq.heapify(heap)
""", """        if batches[batch_idx] is not None and len(batches[batch_idx]) > 0:
            heapq.heappush(heap, create_sort_key(batches, batch_idx, 0))
"""))
R("big2-cache-page-window", "cache/compute.py", ("""        # check for page overlap
        if curr_idx <= offset:
            continue
        elif prev_idx >= (offset + limit):
            return
        # apply any pagination conditions
        condition = pc.scalar(True)
        if prev_idx < offset and curr_idx > offset:
            condition &= (
                pc.field(column_key) >= unique_values[offset - prev_idx]
            )
        if prev_idx < (offset + limit) and curr_idx > (offset + limit):
            condition &= (
                pc.field(column_key) < unique_values[offset + limit - prev_idx]
            )
        yield tbl.filter(condition)
""", """        end = offset + limit
        if prev_idx >= end:
            return
        if curr_idx <= offset:
            continue
        lo = max(offset - prev_idx, 0)
        hi = min(end - prev_idx, n_unique)
        yield tbl.filter(pc.is_in(tbl[column_key], value_set=unique_values[lo:hi]))
"""))
R("big2-cache-page-chain", "cache/compute.py", ("""        condition = pc.scalar(True)
        if prev_idx < offset and curr_idx > offset:
            condition &= (
                pc.field(column_key) >= unique_values[offset - prev_idx]
            )
        if prev_idx < (offset + limit) and curr_idx > (offset + limit):
            condition &= (
                pc.field(column_key) < unique_values[offset + limit - prev_idx]
            )
        yield tbl.filter(condition)
""", """        page = tbl
        if prev_idx < offset:
            page = page.filter(pc.field(column_key) >= unique_values[offset - prev_idx])
        if curr_idx > offset + limit:
            page = page.filter(pc.field(column_key) < unique_values[offset + limit - prev_idx])
        yield page
"""))
R("big2-cache-sort-helper", "cache/compute.py", ("""        for tbl in source.iterate_tables(columns=columns):
            if table_sort_override is not None:
                tbl = table_sort_override(tbl)
            intermediate_sink.write_table(tbl)
        intermediate_sink.sort_by(sorting)
        for tbl in intermediate_sink.to_reader().iterate_tables():
            sink.write_table(tbl)
        sink.flush()
""", """        tables = source.iterate_tables(columns=columns)
        if table_sort_override is not None:
            tables = map(table_sort_override, tables)
        for tbl in tables:
            intermediate_sink.write_table(tbl)
        intermediate_sink.sort_by(sorting)
        for tbl in intermediate_sink.to_reader().iterate_tables():
            sink.write_table(tbl)
        sink.flush()
"""))
R("big2-cache-mem-concat", "cache/ephemeral.py", ("""        if self._buffer:
            self._buffer.append(batch)
            combined_arrays = [
                pa.concat_arrays([b.column(name) for b in self._buffer])
                for name in self.schema.names
            ]
            batch = pa.RecordBatch.from_arrays(
                combined_arrays, schema=self.schema
            )
            self._buffer = []
        # write batch
        self.write_table(pa.Table.from_batches([batch]))
""", """        pending, self._buffer = self._buffer + [batch], []
        self.write_table(pa.Table.from_batches(pending).combine_chunks())
"""))
R("big2-cache-mem-flush-early", "cache/ephemeral.py", ("""        if self._buffer:
            combined_arrays = [
                pa.concat_arrays([b.column(name) for b in self._buffer])
                for name in self.schema.names
            ]
            batch = pa.RecordBatch.from_arrays(
                combined_arrays, schema=self.schema
            )
            self._table = pa.concat_tables(
                [self._table, pa.Table.from_batches([batch])]
            )
            self._buffer = []
""", """        if not self._buffer:
            return
        pending = self._buffer
        self._buffer = []
        arrays = {
            name: pa.concat_arrays([b.column(name) for b in pending])
            for name in self.schema.names
        }
        batch = pa.RecordBatch.from_arrays(
            [arrays[name] for name in self.schema.names], schema=self.schema
        )
        self._table = pa.concat_tables(
            [self._table, pa.Table.from_batches([batch])]
        )
"""))
R("big2-cache-mem-flush-helper", "cache/ephemeral.py", ("""        if self._buffer:
            self._buffer.append(batch)
            combined_arrays = [
                pa.concat_arrays([b.column(name) for b in self._buffer])
                for name in self.schema.names
            ]
            batch = pa.RecordBatch.from_arrays(
                combined_arrays, schema=self.schema
            )
            self._buffer = []
        # write batch
        self.write_table(pa.Table.from_batches([batch]))
""", """        if self._buffer:
            self._buffer.append(batch)
            batch = self._combine()
        # write batch
        self.write_table(pa.Table.from_batches([batch]))
    def _combine(self):
        batches, self._buffer = self._buffer, []
        return pa.RecordBatch.from_arrays(
            [
                pa.concat_arrays([b.column(name) for b in batches])
                for name in self.schema.names
            ],
            schema=self.schema,
        )
"""), ("""        if self._buffer:
            combined_arrays = [
                pa.concat_arrays([b.column(name) for b in self._buffer])
                for name in self.schema.names
            ]
            batch = pa.RecordBatch.from_arrays(
                combined_arrays, schema=self.schema
            )
            self._table = pa.concat_tables(
                [self._table, pa.Table.from_batches([batch])]
            )
            self._buffer = []
""", """        if self._buffer:
            batch = self._combine()
            self._table = pa.concat_tables(
                [self._table, pa.Table.from_batches([batch])]
            )
"""))
R("big2-cache-files-glob", "cache/persistent.py", ("""        return [
            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
        ]
""", """        return list(self._path.glob("*.parquet"))
"""))
R("big2-cache-files-iterdir", "cache/persistent.py", ("""        files = []
        for entry in os.listdir(self._path):
            full_path = os.path.join(self._path, entry)
            if os.path.isfile(full_path):
                files.append(Path(full_path))
        return files
""", """        return [entry for entry in self._path.iterdir() if entry.is_file()]
"""))
R("big2-cache-load-cfg", "cache/persistent.py", ("""            batch_size = _retrieve(cfg, "batch_size")
            rows_per_file = _retrieve(cfg, "rows_per_file")
            compression = _retrieve(cfg, "compression")
            schema = cls._decode_schema(_retrieve(cfg, "schema"))
        return cls(
            schema=schema,
            path=path,
            batch_size=batch_size,
            rows_per_file=rows_per_file,
            compression=compression,
        )
""", """        values = {
            key: _retrieve(cfg, key)
            for key in ("batch_size", "rows_per_file", "compression", "schema")
        }
        values["schema"] = cls._decode_schema(values["schema"])
        return cls(path=path, **values)
"""))
R("big2-cache-frag-sort", "cache/persistent.py", ("""        fragments = list(dataset.get_fragments(filter=filter))
        for fragment in sorted(
            fragments, key=lambda x: int(Path(x.path).stem)
        ):
            yield fragment
""", """        indexed = {
            int(Path(fragment.path).stem): fragment
            for fragment in dataset.get_fragments(filter=filter)
        }
        for index in sorted(indexed):
            yield indexed[index]
"""))
R("big2-cache-colunion", "cache/persistent.py", ("""        _columns = set(columns) if columns else set()
        _numeric_columns = set(numeric_columns) if numeric_columns else set()
        columns = list(_columns.union(_numeric_columns)) or None
""", """        columns = list(set(columns or []) | set(numeric_columns or [])) or None
"""))
R("big2-cache-delete", "cache/persistent.py", ("""        for file in reader.get_dataset_files():
            if file.exists() and file.is_file() and file.suffix == ".parquet":
                file.unlink()
        # delete config file
        cfg_path = cls._generate_config_path(path)
        if cfg_path.exists() and cfg_path.is_file():
            cfg_path.unlink()
""", """        targets = [f for f in reader.get_dataset_files() if f.suffix == ".parquet"]
        targets.append(cls._generate_config_path(path))
        for target in targets:
            if target.is_file():
                target.unlink()
"""))
R("big2-cache-write-split", "cache/persistent.py", ("""        if size < self.batch_size and self._count < self.rows_per_file:
            self._buffer.append(batch)
            return
        if self._buffer:
            self._buffer.append(batch)
            batch = pa.concat_batches(self._buffer)
            self._buffer = []
        # write batch
        writer = self._get_or_create_writer()
        writer.write_batch(batch)
""", """        self._buffer.append(batch)
        if size < self.batch_size and self._count < self.rows_per_file:
            return
        batch = pa.concat_batches(self._buffer)
        self._buffer = []
        self._get_or_create_writer().write_batch(batch)
"""))

# ------------------------------------------------ whole blocks, third batch: segmentation and text generation
_SC, _SL, _SS, _SE = ("semantic_segmentation/" + x + ".py" for x in ("computation", "loader", "shared", "evaluator"))
_TC, _TU, _TV, _TG, _TI = "text_generation/computation.py", "text_generation/llm/utilities.py", "text_generation/llm/validators.py", "text_generation/llm/generation.py", "text_generation/llm/integrations.py"
R("big3-sc-background", _SC, ("""    background_counts = np.logical_not(
        groundtruths.any(axis=0) | predictions.any(axis=0)
    ).sum()
""", """    covered = np.concatenate([groundtruths, predictions], axis=0).any(axis=0)
    background_counts = covered.size - np.count_nonzero(covered)
"""))
R("big3-sc-matmul", _SC, ("""    intersection_counts = np.logical_and(
        groundtruths[:, None, :],
        predictions[None, :, :],
    ).sum(axis=2)
""", """    intersection_counts = groundtruths.astype(np.int64) @ predictions.astype(np.int64).T
"""))
R("big3-sc-unmatched-names", _SC, ("""    np.add.at(
        confusion_matrix,
        (0, prediction_labels + 1),
        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
    )
""", """    missed_predictions = prediction_counts - intersected_prediction_counts
    columns = prediction_labels + 1
    np.add.at(confusion_matrix[0], columns, missed_predictions.astype(np.uint64))
"""))
R("big3-sc-loop", _SC, ("""    np.add.at(
        confusion_matrix,
        (groundtruth_labels + 1, 0),
        (groundtruth_counts - intersected_groundtruth_counts).astype(
            np.uint64
        ),
    )
""", """    rest = (groundtruth_counts - intersected_groundtruth_counts).astype(np.uint64)
    for row, count in zip(groundtruth_labels + 1, rest):
        confusion_matrix[row, 0] += count
"""))
R("big3-sc-ratio-helper", _SC, ("""    precision = np.zeros(n_labels, dtype=np.float64)
    np.divide(tp_counts, pd_counts, where=pd_counts > 1e-9, out=precision)

    recall = np.zeros_like(precision)
    np.divide(tp_counts, gt_counts, where=gt_counts > 1e-9, out=recall)
""", """    def ratio(numerator, denominator):
        return np.divide(
            numerator,
            denominator,
            where=denominator > 1e-9,
            out=np.zeros(n_labels, dtype=np.float64),
        )

    precision = ratio(tp_counts, pd_counts)
    recall = ratio(tp_counts, gt_counts)
"""))
R("big3-sc-f1", _SC, ("""    f1_score = np.zeros_like(precision)
    np.divide(
        2 * (precision * recall),
        (precision + recall),
        where=(precision + recall) > 0,
        out=f1_score,
    )
""", """    total = precision + recall
    f1_score = np.where(total > 0, 2 * precision * recall / np.where(total > 0, total, 1), 0.0)
"""))
R("big3-sc-accuracy", _SC, ("""    tp_count = confusion_matrix[1:, 1:].diagonal().sum()
    background_count = confusion_matrix[0, 0]
    accuracy = (
        (tp_count + background_count) / n_pixels if n_pixels > 0 else 0.0
    )
""", """    accuracy = np.trace(confusion_matrix) / n_pixels if n_pixels > 0 else 0.0
"""))
R("big3-sc-accuracy-if", _SC, ("""    accuracy = (
        (tp_count + background_count) / n_pixels if n_pixels > 0 else 0.0
    )
""", """    accuracy = 0.0
    if n_pixels > 0:
        correct = background_count + tp_count
        accuracy = correct / n_pixels
"""))
R("big3-sl-labels-array", _SL, ("""            groundtruth_labels = -1 * np.ones(
                len(segmentation.groundtruths), dtype=np.int64
            )
            for idx, groundtruth in enumerate(segmentation.groundtruths):
                label_idx = self._add_label(groundtruth.label)
                groundtruth_labels[idx] = label_idx
""", """            groundtruth_labels = np.array(
                [self._add_label(groundtruth.label) for groundtruth in segmentation.groundtruths],
                dtype=np.int64,
            )
"""))
R("big3-sl-labels-full", _SL, ("""            prediction_labels = -1 * np.ones(
                len(segmentation.predictions), dtype=np.int64
            )
            for idx, prediction in enumerate(segmentation.predictions):
                label_idx = self._add_label(prediction.label)
                prediction_labels[idx] = label_idx
""", """            prediction_labels = np.full(len(segmentation.predictions), -1, dtype=np.int64)
            idx = 0
            for prediction in segmentation.predictions:
                prediction_labels[idx] = self._add_label(prediction.label)
                idx += 1
"""))
R("big3-sl-combine-helper", _SL, ("""            if segmentation.groundtruths:
                combined_groundtruths = np.stack(
                    [
                        groundtruth.mask.flatten()
                        for groundtruth in segmentation.groundtruths
                    ],
                    axis=0,
                )
            else:
                combined_groundtruths = np.zeros(
                    (1, segmentation.shape[0] * segmentation.shape[1]),
                    dtype=np.bool_,
                )

            if segmentation.predictions:
                combined_predictions = np.stack(
                    [
                        prediction.mask.flatten()
                        for prediction in segmentation.predictions
                    ],
                    axis=0,
                )
            else:
                combined_predictions = np.zeros(
                    (1, segmentation.shape[0] * segmentation.shape[1]),
                    dtype=np.bool_,
                )
""", """            n_pixels = segmentation.shape[0] * segmentation.shape[1]

            def combine(bitmasks):
                if not bitmasks:
                    return np.zeros((1, n_pixels), dtype=np.bool_)
                return np.stack([b.mask.flatten() for b in bitmasks], axis=0)

            combined_groundtruths = combine(segmentation.groundtruths)
            combined_predictions = combine(segmentation.predictions)
"""))
R("big3-sl-meta-loop", _SL, ("""            gt_metadata = {
                self._labels[gt.label]: gt.metadata
                for gt in segmentation.groundtruths
                if gt.metadata
            }
            pd_metadata = {
                self._labels[pd.label]: pd.metadata
                for pd in segmentation.predictions
                if pd.metadata
            }
""", """            gt_metadata, pd_metadata = {}, {}
            for gt in segmentation.groundtruths:
                if gt.metadata:
                    gt_metadata[self._labels[gt.label]] = gt.metadata
            for pd in segmentation.predictions:
                if pd.metadata:
                    pd_metadata[self._labels[pd.label]] = pd.metadata
"""))
R("big3-sl-datum-fields", _SL, ("""                                # datum
                                "datum_uid": segmentation.uid,
                                "datum_id": self._datum_count,
                                # groundtruth
                                "gt_label": label,
                                "gt_label_id": idx,
                                # prediction
                                "pd_label": plabel,
""", """                                **datum_fields,
                                "gt_label": label,
                                "gt_label_id": idx,
                                "pd_label": plabel,
"""), ("""            rows = []
            for idx in range(n_labels):
""", """            datum_fields = {"datum_uid": segmentation.uid, "datum_id": self._datum_count}
            rows = []
            for idx in range(n_labels):
"""))
R("big3-sl-nonzero-continue", _SL, ("""                    if counts[idx + 1, pidx + 1] > 0:
                        plabel = self._index_to_label[pidx]
                        rows.append(
                            {
                                # metadata
                                **datum_metadata,
                                **gt_metadata.get(idx, {}),
                                **pd_metadata.get(pidx, {}),
                                # datum
                                "datum_uid": segmentation.uid,
                                "datum_id": self._datum_count,
                                # groundtruth
                                "gt_label": label,
                                "gt_label_id": idx,
                                # prediction
                                "pd_label": plabel,
                                "pd_label_id": pidx,
                                # pair
                                "count": counts[idx + 1, pidx + 1],
                            }
                        )
""", """                    count = counts[idx + 1, pidx + 1]
                    if count <= 0:
                        continue
                    row = {**datum_metadata, **gt_metadata.get(idx, {}), **pd_metadata.get(pidx, {})}
                    row["datum_uid"] = segmentation.uid
                    row["datum_id"] = self._datum_count
                    row["gt_label"] = label
                    row["gt_label_id"] = idx
                    row["pd_label"] = self._index_to_label[pidx]
                    row["pd_label_id"] = pidx
                    row["count"] = count
                    rows.append(row)
"""))
R("big3-ss-labels-loop", _SS, ("""        # get gt labels
        gt_label_ids = tbl["gt_label_id"].to_numpy()
        gt_label_ids, gt_indices = np.unique(gt_label_ids, return_index=True)
        gt_labels = tbl["gt_label"].take(gt_indices).to_pylist()
        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))
        gt_labels.pop(-1, None)
        index_to_label.update(gt_labels)

        # get pd labels
        pd_label_ids = tbl["pd_label_id"].to_numpy()
        pd_label_ids, pd_indices = np.unique(pd_label_ids, return_index=True)
        pd_labels = tbl["pd_label"].take(pd_indices).to_pylist()
        pd_labels = dict(zip(pd_label_ids.astype(int).tolist(), pd_labels))
        pd_labels.pop(-1, None)
        index_to_label.update(pd_labels)
""", """        for prefix in ("gt", "pd"):
            label_ids, indices = np.unique(
                tbl[f"{prefix}_label_id"].to_numpy(), return_index=True
            )
            labels = tbl[f"{prefix}_label"].take(indices).to_pylist()
            for label_id, label in zip(label_ids.astype(int).tolist(), labels):
                if label_id != -1:
                    index_to_label[label_id] = label
"""))
R("big3-ss-counts-helper", _SS, ("""        # count groundtruth pixels
        gt_tbl = tbl
        gt_expr = pc.field("gt_label_id") >= 0
        if groundtruths is not None:
            gt_expr &= groundtruths
        gt_tbl = tbl.filter(gt_expr)
        n_gts += int(gt_tbl["count"].to_numpy().sum())

        # count prediction pixels
        pd_tbl = tbl
        pd_expr = pc.field("pd_label_id") >= 0
        if predictions is not None:
            pd_expr &= predictions
        pd_tbl = tbl.filter(pd_expr)
        n_pds += int(pd_tbl["count"].to_numpy().sum())
""", """        def count_pixels(column, extra):
            expr = pc.field(column) >= 0
            if extra is not None:
                expr = expr & extra
            return int(tbl.filter(expr)["count"].to_numpy().sum())

        n_gts += count_pixels("gt_label_id", groundtruths)
        n_pds += count_pixels("pd_label_id", predictions)
"""))
R("big3-se-filter-isin", _SE, ("""                for gt in np.unique(gt_pairs, axis=0):
                    mask_valid_gt |= (gt_ids == gt).all(axis=1)
""", """                allowed = {tuple(gt) for gt in gt_pairs.tolist()}
                for row_idx, pair in enumerate(gt_ids.tolist()):
                    if tuple(pair) in allowed:
                        mask_valid_gt[row_idx] = True
"""))
R("big3-se-filter-broadcast", _SE, ("""                for pd in np.unique(pd_pairs, axis=0):
                    mask_valid_pd |= (pd_ids == pd).all(axis=1)
""", """                mask_valid_pd = (pd_ids[:, None, :] == pd_pairs[None, :, :]).all(axis=2).any(axis=1)
"""))
R("big3-se-filter-where", _SE, ("""            pairs[~mask_valid_gt, 1] = -1
            pairs[~mask_valid_pd, 2] = -1
""", """            pairs[:, 1] = np.where(mask_valid_gt, pairs[:, 1], -1)
            pairs[:, 2] = np.where(mask_valid_pd, pairs[:, 2], -1)
"""))
R("big3-tc-correctness", _TC, ("""    f1_scores = [0.0]
    for groundtruth in groundtruths:
""", """    best = 0.0
    for groundtruth in groundtruths:
"""), ("""        f1_scores.append(tp / (tp + 0.5 * (fp + fn)) if tp > 0 else 0)

    return max(f1_scores)
""", """        if tp > 0:
            best = max(best, 2 * tp / (2 * tp + fp + fn))

    return best
"""))
R("big3-tc-correctness-comp", _TC, ("""        tp = len(verdicts["TP"])
        fp = len(verdicts["FP"])
        fn = len(verdicts["FN"])

        f1_scores.append(tp / (tp + 0.5 * (fp + fn)) if tp > 0 else 0)
""", """        tp, fp, fn = (len(verdicts[key]) for key in ("TP", "FP", "FN"))
        if tp > 0:
            f1_scores.append(tp / (tp + (fp + fn) / 2))
"""))
R("big3-tc-relevance-helper", _TC, ("""    if len(verdicts) == 0:
        return 0.0

    return sum(verdict["verdict"] == "yes" for verdict in verdicts) / len(
        verdicts
    )


def calculate_bias(
""", """    return _fraction(verdicts, "yes")


def _fraction(verdicts, value):
    if not verdicts:
        return 0.0
    return sum(1 for v in verdicts if v["verdict"] == value) / len(verdicts)


def calculate_bias(
"""))
R("big3-tc-bias-count", _TC, ("""        opinions=opinions,
    )
    return sum(verdict["verdict"] == "yes" for verdict in verdicts) / len(
        verdicts
    )


def calculate_context_precision(
""", """        opinions=opinions,
    )
    biased = [verdict for verdict in verdicts if verdict["verdict"] == "yes"]
    return len(biased) / len(verdicts)


def calculate_context_precision(
"""))
R("big3-tc-cp-running", _TC, ("""    precision_at_k_list = []
    for k in range(1, len(predicted_context) + 1):
        # Only compute the precision at k if the kth context is relevant.
        if aggregate_verdicts[k - 1] == "yes":
            precision_at_k = (
                sum(verdict == "yes" for verdict in aggregate_verdicts[:k]) / k
            )
            precision_at_k_list.append(precision_at_k)
""", """    precision_at_k_list = []
    n_relevant = 0
    for k, verdict in enumerate(aggregate_verdicts, start=1):
        if verdict != "yes":
            continue
        n_relevant += 1
        precision_at_k_list.append(n_relevant / k)
"""))
R("big3-tc-cp-flags", _TC, ("""        for i in range(len(verdicts)):
            if verdicts[i]["verdict"] == "yes":
                aggregate_verdicts[i] = "yes"
""", """        aggregate_verdicts = [
            "yes" if new["verdict"] == "yes" else old
            for new, old in zip(verdicts, aggregate_verdicts)
        ]
"""))
R("big3-tc-cr-max", _TC, ("""        scores.append(
            sum(verdict["verdict"] == "yes" for verdict in verdicts)
            / len(verdicts)
            if len(verdicts) > 0
            else 0.0
        )

    return max(scores)
""", """        score = 0.0
        if verdicts:
            attributed = sum(1 for v in verdicts if v["verdict"] == "yes")
            score = attributed / len(verdicts)
        scores.append(score)

    return sorted(scores)[-1]
"""))
R("big3-tc-cp-empty", _TC, ("""    if len(predicted_context) == 0 and len(groundtruth_context) == 0:
        return 1.0
    elif len(predicted_context) == 0 or len(groundtruth_context) == 0:
        return 0.0

    # Get verdicts""", """    if not predicted_context or not groundtruth_context:
        return 1.0 if not predicted_context and not groundtruth_context else 0.0

    # Get verdicts"""))
R("big3-tu-walrus", _TU, ("""    match = re.search(pattern, text)
    if not match:
        raise InvalidLLMResponseError(
            f"LLM did not include valid brackets in its response: {text}"
        )
    extracted_text = match.group()

    try:
        return json.loads(extracted_text)
    except""", """    if (match := re.search(pattern, text)) is None:
        raise InvalidLLMResponseError(
            f"LLM did not include valid brackets in its response: {text}"
        )
    try:
        parsed = json.loads(match.group(0))
        return parsed
    except"""))
R("big3-tu-brackets", _TU, ("""    pattern = r"\\{[\\s\\S]*\\}"
    match = re.search(pattern, text)
    if not match:
        raise InvalidLLMResponseError(
            f"LLM did not include valid brackets in its response: {text}"
        )
    extracted_text = match.group()
""", """    start, end = text.find("{"), text.rfind("}")
    if start < 0 or end < start:
        raise InvalidLLMResponseError(
            f"LLM did not include valid brackets in its response: {text}"
        )
    extracted_text = text[start : end + 1]
"""))
R("big3-tv-verdict-helper", _TV, ("""        elif not isinstance(value["verdict"], str) or (
            allowed_values is not None
            and value["verdict"] not in allowed_values
        ):
            raise""", """        verdict = value["verdict"]
        is_allowed = isinstance(verdict, str)
        if is_allowed and allowed_values is not None:
            is_allowed = verdict in allowed_values
        if not is_allowed:
            raise"""))
R("big3-tv-issubset", _TV, ("""    elif allowed_values is not None and not all(
        [v in allowed_values for v in response[key]]
    ):
""", """    elif allowed_values is not None and not set(response[key]) <= allowed_values:
"""))
R("big3-tv-loop-anyall", _TV, ("""        or not all([isinstance(v, str) for v in response[key]])
""", """        or any(not isinstance(v, str) for v in response[key])
"""))
R("big3-tg-generate-partial", _TG, ("""    response = client(messages)
    response = trim_and_load_json(response)
    for key in keys:
        validator(
            response=response,
            key=key,
            allowed_values=allowed_values,
            enforce_length=enforce_length,
        )
    return response
""", """    parsed = trim_and_load_json(client(messages))
    restrictions = {"allowed_values": allowed_values, "enforce_length": enforce_length}
    for key in keys:
        validator(response=parsed, key=key, **restrictions)
    return parsed
"""))
R("big3-ti-choice", _TI, ("""        response = openai_response.choices[0].message.content
        if openai_response.usage is not None:
            self.total_prompt_tokens += openai_response.usage.prompt_tokens
            self.total_completion_tokens += (
                openai_response.usage.completion_tokens
            )
        finish_reason = openai_response.choices[
            0
        ].finish_reason  # Enum: "stop" "length" "content_filter" "tool_calls" "function_call"
""", """        choice = openai_response.choices[0]
        finish_reason = choice.finish_reason
        response = choice.message.content
        usage = openai_response.usage
        if usage is not None:
            self.total_completion_tokens += usage.completion_tokens
            self.total_prompt_tokens += usage.prompt_tokens
"""))
R("big3-ti-reasons", _TI, ("""        if finish_reason == "length":
            raise ValueError(
                "OpenAI response reached max token limit. Resulting evaluation is likely invalid or of low quality."
            )
        elif finish_reason == "content_filter":
            raise ValueError(
                "OpenAI response was flagged by content filter. Resulting evaluation is likely invalid or of low quality."
            )

        if response is None:
            response = ""
        return response


class MistralWrapper:
""", """        problems = {
            "length": "OpenAI response reached max token limit. Resulting evaluation is likely invalid or of low quality.",
            "content_filter": "OpenAI response was flagged by content filter. Resulting evaluation is likely invalid or of low quality.",
        }
        if finish_reason in problems:
            raise ValueError(problems[finish_reason])
        return response if response is not None else ""


class MistralWrapper:
"""))
