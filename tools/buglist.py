"""Realistic bugs, written from the properties' text: (name, property, file, [(old, new[, file])])."""
BUGS = []


def bug(name, prop, file, *edits):
    BUGS.append((name, prop, file, edits))


# --- caches
bug("c01-flush-count", "C01", "cache/persistent.py",
    ("            writer = self._get_or_create_writer()\n            writer.write_batch(batch)\n        self._buffer = []\n        self._count = 0\n        self._close_writer()",
     "            writer = self._get_or_create_writer()\n            writer.write_batch(batch)\n            self._buffer = []\n            self._count = 0\n        if self._count == 0:\n            self._close_writer()"))
bug("c01-exit-exc", "C01", "cache/persistent.py",
    ("        \"\"\"Context manager exit - ensures data is flushed.\"\"\"\n        self.flush()", "        \"\"\"Context manager exit - ensures data is flushed.\"\"\"\n        if self._count > 0:\n            self.flush()"))
bug("c01-batch-order", "C01", "cache/persistent.py",
    ("            self._buffer.append(batch)\n            batch = pa.concat_batches(self._buffer)", "            batch = pa.concat_batches([batch, *self._buffer])"))
bug("c01-table-noflush", "C01", "cache/ephemeral.py",
    ("        self.flush()\n        self._table = pa.concat_tables([self._table, table])", "        self._table = pa.concat_tables([self._table, table])"))
bug("c01-count-double", "C01", "cache/persistent.py",
    ("        if size < self.batch_size and self._count < self.rows_per_file:\n            self._buffer.append(batch)\n            return\n\n        if self._buffer:\n            self._buffer.append(batch)",
     "        if size < self.batch_size and self._count < self.rows_per_file:\n            self._buffer.append(batch)\n            return\n\n        if len(self._buffer) > 1:\n            self._buffer.append(batch)"))
bug("c01-write-columns-empty", "C01", "cache/persistent.py",
    ("        batch = pa.RecordBatch.from_pylist(rows, schema=self._schema)", "        batch = pa.RecordBatch.from_pylist([r for r in rows if r], schema=self._schema)"))
bug("c02-sort-str", "C02", "cache/persistent.py",
    ("fragments, key=lambda x: int(Path(x.path).stem)", "fragments, key=lambda x: Path(x.path).stem"))
bug("c02-sort-path", "C02", "cache/persistent.py",
    ("            fragments, key=lambda x: int(Path(x.path).stem)", "            fragments, key=lambda x: (len(x.path), int(Path(x.path).stem) % 1000000)"))
bug("c02-lexmax", "C02", "cache/persistent.py",
    ("            next_index = max([int(Path(f).stem) for f in files]) + 1", "            next_index = int(Path(max(files)).stem) + 1"))
bug("c02-rows-gt", "C02", "cache/persistent.py",
    ("        if self._count >= self.rows_per_file:\n            self.flush()", "        if self._count > 2 * self.rows_per_file:\n            self.flush()"))
bug("c03-columns-or", "C03", "cache/persistent.py",
    ("            table_columns = (\n                numeric_columns if numeric_columns else tbl.column_names\n            )", "            table_columns = tbl.column_names"))
bug("c03-sortedcols", "C03", "cache/ephemeral.py",
    ("            table_columns = (\n                numeric_columns if numeric_columns else tbl.column_names\n            )", "            table_columns = (\n                sorted(numeric_columns) if numeric_columns else tbl.column_names\n            )"))
bug("c03-filter-fragment-only", "C03", "cache/persistent.py",
    ("            yield fragment.to_table(columns=columns, filter=filter)", "            yield fragment.to_table(columns=columns)"))
bug("c04-truthy-cfg", "C04", "cache/persistent.py",
    ("            if key in config:\n                return config[key]", "            if config.get(key):\n                return config[key]"))
bug("c04-default-compression", "C04", "cache/persistent.py",
    ("            compression = _retrieve(cfg, \"compression\")", "            compression = cfg.get(\"compression\") if cfg.get(\"compression\") != \"none\" else \"snappy\""))
bug("c05-rmtree", "C05", "cache/persistent.py",
    ("        # delete empty cache directory\n        path.rmdir()", "        # delete empty cache directory\n        for entry in path.iterdir():\n            if entry.is_file():\n                entry.unlink()\n        path.rmdir()"))
bug("c05-existok", "C05", "cache/persistent.py",
    ("        Path(path).mkdir(parents=True, exist_ok=False)", "        Path(path).mkdir(parents=True, exist_ok=not any(path.glob('*.parquet')))"))
bug("c06-neg-missing", "C06", "cache/compute.py",
    ("            for name, direction in sorting\n        ]\n        return (", "            for name, direction in sorting[:2]\n        ]\n        return ("))
bug("c06-batchlen", "C06", "cache/compute.py",
    ("        if row_idx < len(batches[batch_idx]):\n", "        if row_idx < min(len(batches[batch_idx]), batch_size - 1):\n"))
bug("c06-nonnegdir", "C06", "cache/compute.py",
    ("            if direction == \"descending\"", "            if direction != \"ascending\" and name == sorting[0][0]"))
bug("c06-mem-columns", "C06", "cache/compute.py",
    ("        intermediate_sink.sort_by(sorting)\n", "        if table_sort_override is None:\n            intermediate_sink.sort_by(sorting)\n"))
bug("c06-noflush", "C06", "cache/compute.py",
    ("                sorted_tbl = tbl.sort_by(sorting)\n            sink.write_table(sorted_tbl)\n        sink.flush()\n        return", "                sorted_tbl = tbl\n            sink.write_table(sorted_tbl)\n        sink.flush()\n        return"))
bug("c06-inplace-noflush", "C06", "cache/persistent.py",
    ("        self.flush()\n        for file in self.get_dataset_files():\n            pf", "        if self._buffer:\n            self.flush()\n        for file in self.get_dataset_files()[1:]:\n            pf"))
bug("c07-limit-le", "C07", "cache/compute.py",
    ("pc.field(column_key) < unique_values[offset + limit - prev_idx]", "pc.field(column_key) <= unique_values[offset + limit - prev_idx]"))
bug("c07-filter-total", "C07", "cache/compute.py",
    ("        if curr_idx <= offset:\n            continue", "        if curr_idx < offset:\n            continue"))
bug("c07-offset-total", "C07", "cache/compute.py",
    ("    if offset == 0 and limit >= total:", "    if limit >= total:"))
bug("c07-unsorted", "C07", "cache/compute.py",
    ("unique_values = pc.unique(tbl[column_key]).sort()", "unique_values = pc.unique(tbl[column_key])"))
bug("c07-return-early", "C07", "cache/compute.py",
    ("        elif prev_idx >= (offset + limit):\n            return", "        elif prev_idx >= limit:\n            return"))
bug("c07-count-num-rows", "C07", "cache/compute.py",
    ("        curr_idx += n_unique\n", "        curr_idx += max(n_unique, tbl.num_rows if limit >= total else n_unique)\n"))
# --- classification
bug("c10-counts-reset", "C10", "classification/evaluator.py",
    ("            counts += batch_counts\n", "            counts = np.maximum(counts, batch_counts)\n"))
bug("c10-rocauc-prev", "C22", "classification/computation.py",
    ("        prev[label_idx, 0] = fps[-1]\n        prev[label_idx, 1] = tps[-1]\n\n        if fps.size == 1:\n            continue\n", "        if fps.size == 1:\n            continue\n\n        prev[label_idx, 0] = fps[-1]\n        prev[label_idx, 1] = tps[-1]\n"))
bug("c22-running-score", "C22", "classification/evaluator.py",
    ("                running_max_scores[idx] = pd_scores[-1]\n", "                running_max_scores[idx] = pd_scores[0]\n"))
bug("c22-remaining", "C22", "classification/evaluator.py",
    ("                last_fp != running_max_fp[idx]\n                or last_tp != running_max_tp[idx]", "                last_fp != running_max_fp[idx]\n                and last_tp != running_max_tp[idx]"))
bug("c22-sort-match-first", "C22", "classification/evaluator.py",
    ("                (\"pd_score\", \"descending\"),\n                # (\"pd_label_id\", \"ascending\"),\n                (\"match\", \"ascending\"),", "                (\"pd_score\", \"descending\"),\n                (\"pd_label_id\", \"ascending\"),"))
bug("c22-mean-nonzero", "C22", "classification/evaluator.py",
    ("        mean_rocauc = rocauc.mean()", "        mean_rocauc = rocauc[label_counts[:, 1] > 0].mean()"))
bug("c22-mean-nanmean", "C22", "classification/evaluator.py",
    ("        mean_rocauc = rocauc.mean()", "        mean_rocauc = rocauc[rocauc > 0].mean() if (rocauc > 0).any() else 0.0"))
bug("c21-fn-all", "C21", "classification/computation.py",
    ("        mask_fn &= mask_valid_gts\n        mask_fp &= mask_valid_pds\n", "        mask_fp &= mask_valid_pds\n"))
bug("c21-thr-strict", "C21", "classification/computation.py",
    ("        mask_score_threshold = scores >= score_thresholds[score_idx]\n", "        mask_score_threshold = scores > score_thresholds[score_idx] - 1e-9\n"))
bug("c21-hardmax-once", "C21", "classification/computation.py",
    ("        if hardmax:\n            mask_score &= mask_hardmax\n\n        mask_tp", "        if hardmax and score_thresholds[score_idx] <= 0.5:\n            mask_score &= mask_hardmax\n\n        mask_tp"))
bug("c21-inplace", "C11", "classification/computation.py",
    ("        mask_score = mask_score_nonzero & mask_score_threshold\n", "        mask_score = mask_score_nonzero\n        mask_score &= mask_score_threshold\n"))
bug("c11-sorted-thr", "C11", "classification/evaluator.py",
    ("            batch_counts = compute_counts(\n                ids=ids,\n                scores=scores,\n                winners=winners,\n                score_thresholds=np.array(score_thresholds),", "            batch_counts = compute_counts(\n                ids=ids,\n                scores=scores,\n                winners=winners,\n                score_thresholds=np.unique(np.array(score_thresholds)),"))
bug("c11-round-thr", "C11", "classification/evaluator.py",
    ("                score_thresholds=np.array(score_thresholds),\n                hardmax=hardmax,\n                n_labels=n_labels,", "                score_thresholds=np.round(np.array(score_thresholds), 2),\n                hardmax=hardmax,\n                n_labels=n_labels,"))
bug("c21-recall-fn", "C21", "classification/computation.py",
    ("        (counts[:, :, 0] + counts[:, :, 2]),\n        where=(counts[:, :, 0] + counts[:, :, 2]) > 0,", "        (counts[:, :, 0] + counts[:, :, 2]),\n        where=counts[:, :, 2] > 0,"))
bug("c21-acc-labels", "C21", "classification/computation.py",
    ("        counts[:, :, 0].sum(axis=1),\n        n_datums,", "        counts[:, :, 0].sum(axis=1),\n        max(n_datums, counts[:, :, 0].sum()),"))
bug("c08-acc-unfiltered", "C08", "classification/evaluator.py",
    ("        n_datums = info.number_of_datums\n        n_labels = info.number_of_labels\n\n        # intermediates", "        n_datums = self.info.number_of_datums\n        n_labels = info.number_of_labels\n\n        # intermediates"))
bug("c08-iter-nofilter", "C08", "classification/evaluator.py",
    ("        for tbl in self._reader.iterate_tables(columns=columns, filter=datums):\n            ids", "        for tbl in self._reader.iterate_tables(columns=columns):\n            if datums is not None and tbl.filter(datums).num_rows == 0:\n                continue\n            ids"))
bug("c09-gt-pd-swap", "C09", "classification/evaluator.py",
    ("                        for col in (\"datum_id\", \"pd_label_id\")", "                        for col in (\"datum_id\", \"gt_label_id\")"))
bug("c09-or", "C09", "classification/evaluator.py",
    ("            mask_valid = mask_valid_gt & mask_valid_pd\n            filtered", "            mask_valid = mask_valid_gt | mask_valid_pd\n            filtered"))
bug("c09-labelspace", "C09", "classification/evaluator.py",
    ("        return loader.finalize(index_to_label_override=self._index_to_label)", "        return loader.finalize()"))
bug("c20-argmax-last", "C20", "classification/loader.py",
    ("            max_score_idx = np.argmax(np.array(classification.scores))", "            max_score_idx = len(classification.scores) - 1 - np.argmax(np.array(classification.scores)[::-1])"))
bug("c20-winner-value", "C20", "classification/loader.py",
    ("\"pd_winner\": max_score_idx == idx,", "\"pd_winner\": score >= max(classification.scores),"))
bug("c20-datum-count", "C20", "classification/loader.py",
    ("            # update datum count\n            self._datum_count += 1", "            # update datum count\n        self._datum_count += len(classifications)"))
bug("c20-metadata-shadow", "C20", "classification/loader.py",
    ("                        # metadata\n                        **datum_metadata,\n", ""), ("                        \"match\": (gidx == pidx) and pidx >= 0,\n", "                        \"match\": (gidx == pidx) and pidx >= 0,\n                        **datum_metadata,\n"))
bug("c20-match-positive", "C20", "classification/loader.py",
    ("(gidx == pidx) and pidx >= 0", "(gidx == pidx) and score > 0"))
bug("c18-lower", "C18", "classification/loader.py",
    ("        idx = self._labels.get(value, None)\n        if idx is None:\n            idx = len(self._labels)\n            self._labels[value] = idx\n            self._index_to_label[idx] = value\n        return idx", "        key = value.strip()\n        idx = self._labels.get(key, None)\n        if idx is None:\n            idx = len(self._labels)\n            self._labels[key] = idx\n            self._index_to_label[idx] = value\n        return idx"))
bug("c18-falsy-idx", "C18", "classification/loader.py",
    ("        if idx is None:\n", "        if not idx:\n"))
bug("c18-unique-index", "C18", "classification/shared.py",
    ("        pd_labels = tbl[\"pd_label\"].take(pd_indices).to_pylist()", "        pd_labels = tbl[\"pd_label\"].take(gt_indices).to_pylist()"))
bug("c18-override-update", "C18", "classification/shared.py",
    ("    if index_to_label_override is not None:\n        return index_to_label_override\n\n    index_to_label = {}", "    index_to_label = {}"))
bug("c15-uint8", "C15", "classification/evaluator.py",
    ("        counts = np.zeros((n_scores, n_labels, 4), dtype=np.uint64)\n\n        for ids", "        counts = np.zeros((n_scores, n_labels, 4), dtype=np.uint16)\n\n        for ids"))
bug("c23-unmatched-alllabels", "C23", "classification/computation.py",
    ("            .all(axis=2)\n            .any(axis=1)", "            .all(axis=1)\n            .any(axis=1)"))
bug("c23-cm-dup", "C23", "classification/computation.py",
    ("            ids[np.ix_(mask_fn_unmatched[score_idx], (0, 1))],  # type: ignore - numpy ix_ typing\n            axis=0,\n        )\n        unique_labels, unique_label_counts = np.unique(\n            unique_pairs[:, 1]", "            ids[np.ix_(mask_fn_unmatched[score_idx], (0, 1, 2))],  # type: ignore - numpy ix_ typing\n            axis=0,\n        )\n        unique_labels, unique_label_counts = np.unique(\n            unique_pairs[:, 1]"))
bug("c23-examples-fn", "C23", "classification/evaluator.py",
    ("            mask_fn = mask_fp_fn_misclf | mask_fn_unmatched\n", "            mask_fn = mask_fn_unmatched\n"))
bug("c23-winner-mask", "C23", "classification/computation.py",
    ("        if hardmax:\n            mask_score &= winners\n", "        if hardmax:\n            mask_score &= winners | mask_label_match\n"))
bug("c12-hist", "C12", "classification/utilities.py",
    ("enumerate(score_thresholds)", "enumerate(sorted(score_thresholds))"))

# --- object detection
OC, OE, OL, OS, OU = ("object_detection/" + x + ".py" for x in ("computation", "evaluator", "loader", "shared", "utilities"))
bug("c30-neg-area", "C30", OC, ("    intersection_width = np.maximum(0, xmax - xmin)\n", "    intersection_width = np.abs(xmax - xmin)\n"))
bug("c30-clip-area", "C30", OC,
    ("    intersection_width = np.maximum(0, xmax - xmin)\n    intersection_height = np.maximum(0, ymax - ymin)\n    intersection_area = intersection_width * intersection_height", "    intersection_width = xmax - xmin\n    intersection_height = ymax - ymin\n    intersection_area = np.maximum(\n        0, intersection_width * intersection_height\n    )"))
bug("c30-eps-big", "C30", OC, ("        where=union_area >= EPSILON,", "        where=union_area >= 1.0,"))
bug("c30-plus1", "C30", OC, ("    area1 = (xmax1 - xmin1) * (ymax1 - ymin1)", "    area1 = (xmax1 - xmin1 + 1) * (ymax1 - ymin1 + 1)"))
bug("c30-int-area", "C30", OC, ("    lhs_sum = lhs.sum(axis=1)\n", "    lhs_sum = lhs.sum(axis=1, dtype=np.uint16)\n"))
bug("c30-mask-union", "C30", OC, ("    union_ = lhs_sum + rhs_sum - intersection_\n", "    union_ = np.maximum(lhs_sum, rhs_sum)\n"))
bug("c30-poly-union", "C30", OC, ("    unions = shapely.union(lhs, rhs)\n    union_areas = shapely.area(unions)\n", "    union_areas = shapely.area(lhs) + shapely.area(rhs)\n"))
bug("c30-poly-hull", "C30", OC, ("shapely.area(intersections)", "shapely.area(shapely.envelope(intersections))"))
bug("c30-out-missing", "C30", OC, ("    ious = np.zeros(n_pairs, dtype=np.float64)\n    np.divide(\n        intersection_,", "    ious = np.empty(n_pairs, dtype=np.float64)\n    np.divide(\n        intersection_,"))
bug("c32-gt-only", "C32", OC, ("        pairs[:, [0, 2, 4]], axis=0, return_index=True", "        pairs[:, [0, 2]], axis=0, return_index=True"))
bug("c32-matched-any", "C32", OC, ("    mask_label_match = np.isclose(pairs[:, 3], pairs[:, 4])\n    matched_predictions", "    mask_label_match = pairs[:, 1] >= 0\n    matched_predictions"))
bug("c32-score-zero", "C32", OC, ("    mask_predictions = sorted_pairs[:, 2] >= 0.0\n", "    mask_predictions = sorted_pairs[:, 6] > 0.0\n"))
bug("c32-lexsort-order", "C32", OC, ("            -pairs[:, 5],  # iou\n            -pairs[:, 6],  # score\n", "            -pairs[:, 6],  # score\n            -pairs[:, 5],  # iou\n"))
bug("c32-bound-last", "C32", OC, ("        iou_boundary[indices[1:]] = ious[indices[:-1]]\n", "        iou_boundary[indices[1:]] = ious[indices[0]]\n"))
bug("c32-bound-datum", "C32", OC, ("    gts = ids[:, (0, 1, 3)]\n", "    gts = ids[:, (0, 1, 1)]\n"))
bug("c32-bound-ge", "C32", OC, ("running_max[1:] > running_max[:-1]", "running_max[1:] >= running_max[:-1]"))
bug("c32-bound-labels", "C32", OC, ("        mask_gt &= mask_matching_labels\n", ""))
bug("c32-rank-sort", "C32", OE, ("            table_sort_override=rank_table,\n", "            table_sort_override=rank_table if batch_size > 1 else None,\n"))
bug("c32-rank-cols", "C32", OC, ('        ("pd_score", "descending"),\n        ("iou", "descending"),\n    ]\n\n    # initial', '        ("pd_score", "descending"),\n        ("iou", "ascending"),\n    ]\n\n    # initial'))
bug("c33-prev-le", "C33", OC, ("prev_ious < max(iou_thresholds[iou_idx], EPSILON)", "prev_ious < iou_thresholds[iou_idx]"))
bug("c33-zero-score", "C33", OC, ("            mask_score_thresh = scores >= score_thresholds[score_idx]\n\n            mask_tp_inner", "            mask_score_thresh = scores > score_thresholds[score_idx]\n\n            mask_tp_inner"))
bug("c33-unique-noscope", "C33", OC, ("                tp_candidates[:, [0, 1, 3]], axis=0, return_index=True", "                tp_candidates[:, [0, 3]], axis=0, return_index=True"))
bug("c33-dup-fp", "C33", OC, ("            mask_fp_inner |= mask_tp_inner & ~true_positives_mask\n", ""))
bug("c33-recall-round", "C33", OC, ("np.floor(recall * 100.0)", "np.ceil(recall * 100.0)"))
bug("c33-running", "C33", OC, ("                running_counts[iou_idx, pd_label, 1] + 1,\n                running_counts[iou_idx, pd_label, 1] + tp_count + 1,", "                1,\n                tp_count + 1,"))
bug("c33-running0", "C10", OC, ("            running_counts[iou_idx, pd_label, 0] += total_count\n", "            running_counts[iou_idx, pd_label, 0] = total_count\n"))
bug("c33-pr-overwrite", "C10", OC, ("        pr_curve[iou_idx, li, ri, 0] = np.maximum(\n            pr_curve[iou_idx, li, ri, 0],\n            sorted_precision[recall_indices],\n        )", "        pr_curve[iou_idx, li, ri, 0] = sorted_precision[recall_indices]"))
bug("c33-101", "C33", OC, ("    for recall in range(100, -1, -1):", "    for recall in range(100, 0, -1):"))
bug("c33-map-size", "C33", OC, ("mAP = average_precision.mean(axis=1)", "mAP = average_precision.mean(axis=1, where=average_precision > 0)"))
bug("c33-fn", "C33", OE, ("        counts[:, :, 2, :] = n_gts_per_lbl - counts[:, :, 0, :]\n", "        counts[:, :, 2, :] = n_gts_per_lbl - np.minimum(\n            n_gts_per_lbl, counts[:, :, 0, :] + counts[:, :, 1, :]\n        )\n"))
bug("c33-ar-axis", "C33", OC, ("    average_recall = recall.mean(axis=0)\n    mAR = average_recall.mean(axis=-1)", "    average_recall = recall.mean(axis=1)\n    mAR = average_recall.mean(axis=-1)"))
bug("c33-ar-max", "C33", OC, ("    average_recall = recall.mean(axis=0)\n", "    average_recall = recall.max(axis=0)\n"))
bug("c33-f1", "C33", OC, ("        2 * np.multiply(p, r),\n", "        np.multiply(p, r),\n"))
bug("c14-f1-guard", "C14", OC, ("        where=(p + r) > EPSILON,\n", "        where=(p > EPSILON) | (r >= 0),\n"))
bug("c14-prec-guard", "C14", OC, ("        where=tp_fp_count > 0,\n        out=prec_rec_f1[:, :, 0, :],", "        where=tp_count >= 0,\n        out=prec_rec_f1[:, :, 0, :],"))
bug("c33-gts-unfiltered", "C08", OE, ("            reader=self._detailed_reader,\n            number_of_labels=n_labels,\n            datums=datums,\n", "            reader=self._detailed_reader,\n            number_of_labels=n_labels,\n"))
bug("c33-gts-ranked", "C33", OE, ("        n_gts_per_lbl = extract_groundtruth_count_per_label(\n            reader=self._detailed_reader,", "        n_gts_per_lbl = extract_groundtruth_count_per_label(\n            reader=self._ranked_reader,"))
bug("c15-gt-unique", "C15", OS, ("        unique_ann = np.unique(gts[gts[:, 0] >= 0], axis=0)\n", "        unique_ann = gts[gts[:, 0] >= 0]\n"))
bug("c15-count-assign", "C10", OS, ("            gt_counts_per_lbl[int(label_id)] += int(count)\n", "            gt_counts_per_lbl[int(label_id)] = int(count)\n"))
bug("c34-isin-shift", "C34", OC, ("    combined_data = (data[:, 0].astype(np.int64) << 32)", "    combined_data = (data[:, 0].astype(np.int64) << 16)"), ("    combined_subset = (subset[:, 0].astype(np.int64) << 32)", "    combined_subset = (subset[:, 0].astype(np.int64) << 16)"))
bug("c34-greedy-label", "C34", OC, ("        if not (gidx < 0 or pidx < 0 or used_gt[gidx] or used_pd[pidx]):", "        if not (gidx < 0 or pidx < 0 or used_gt[gidx]):"))
bug("c34-greedy-max", "C34", OC, ("            used_gt[gidx] = True\n            used_pd[pidx] = True\n", "        used_gt[gidx] = True\n        used_pd[pidx] = True\n"))
bug("c34-um-pred", "C34", OC, ("                & mask_pd_exists\n                & mask_score\n", "                & mask_pd_exists\n                & mask_score_threshold\n"))
bug("c34-um-pred-iou", "C34", OC, ("                & mask_pd_exists\n                & mask_score\n", "                & mask_pd_exists\n                & mask_score\n                & ~mask_iou\n"))
bug("c34-um-gt", "C34", OC, ("                ~mask_groundtruths_in_thresholded_matched_pairs\n                & mask_gt_exists\n", "                ~mask_groundtruths_in_thresholded_matched_pairs\n                & mask_gt_exists\n                & ~mask_gt_pd_match\n"))
bug("c34-cm-tuple", "C34", OC, ("                ids[np.ix_(mask_matched[iou_idx, score_idx], (0, 1, 2, 3, 4))],", "                ids[np.ix_(mask_matched[iou_idx, score_idx], (0, 1, 3, 3, 4))],"))
bug("c34-cm-incr", "C34", OC, ("                ids[np.ix_(mask_fp_unmatched[iou_idx, score_idx], (0, 2, 4))],", "                ids[np.ix_(mask_fp_unmatched[iou_idx, score_idx], (0, 4, 4))],"))
bug("c34-cm-transpose", "C34", OC, ("                iou_idx, score_idx, unique_labels[:, 0], unique_labels[:, 1]\n", "                iou_idx, score_idx, unique_labels[:, 1], unique_labels[:, 0]\n"))
bug("c34-cm-accum", "C10", OE, ("            unmatched_predictions += batch_unmatched_predictions\n", "            unmatched_predictions = batch_unmatched_predictions\n"))
bug("c34-flag-alias", "C34", OC, ("    mask_fn_unmatched = (\n        np.bitwise_and(pair_classifications, PairClassification.FN_UNMATCHED)\n        > 0", "    mask_fn_unmatched = (\n        np.bitwise_and(pair_classifications, PairClassification.FN_UNMATCHED)\n        > PairClassification.FP_UNMATCHED"))
bug("c34-or-assign", "C34", OC, ("                iou_idx, score_idx, mask_unmatched_groundtruths\n            ] |= np.uint8(PairClassification.FN_UNMATCHED)", "                iou_idx, score_idx, mask_unmatched_groundtruths\n            ] = np.uint8(PairClassification.FN_UNMATCHED)"))
bug("c31-gt-labels", "C31", OL, ("                    if (ious[:, gidx] < EPSILON).all():", "                    if (ious[:, gidx] < EPSILON).any():"))
bug("c31-gt-empty", "C31", OL, ("                    if (ious[:, gidx] < EPSILON).all():", "                    if ious.size and (ious[:, gidx] < EPSILON).all():"))
bug("c31-pd-first-gt", "C31", OL, ("                        if (ious[pidx, :] < EPSILON).all():", "                        if gidx == 0 and (ious[pidx, :] < EPSILON).all():"))
bug("c31-pd-only-maxscore", "C31", OL, ("            self._prediction_count += len(detection.predictions)\n", "            self._prediction_count += len(detection.predictions) or 0 if detection.groundtruths else 0\n"))
bug("c31-id-offset", "C31", OL, ("            self._groundtruth_count += len(detection.groundtruths)\n", "            self._groundtruth_count += max(len(detection.groundtruths) - 1, 0)\n"))
bug("c31-swap-index", "C31", OL, ("                        if ious[pidx, gidx] >= EPSILON:", "                        if ious[pidx, gidx] > 0.1:"))
bug("c31-reshape", "C31", OL, ("                        [gt.extrema, pd.extrema]\n                        for pd in detection.predictions\n                        for gt in detection.groundtruths\n", "                        [gt.extrema, pd.extrema]\n                        for gt in detection.groundtruths\n                        for pd in detection.predictions\n"))
bug("c31-meta", "C31", OL, ("                                        **datum_metadata,\n                                        **gann_metadata,\n                                        **pann_metadata,\n", "                                        **pann_metadata,\n                                        **gann_metadata,\n                                        **datum_metadata,\n"))
bug("c31-f32", "C31", OL, ('"iou": float(ious[pidx, gidx]),', '"iou": round(float(ious[pidx, gidx]), 2),'))
bug("c09-od-fill", "C09", OE, ("            pairs[np.ix_(~mask_valid_pd, (2, 4, 6))] = -1.0", "            pairs[np.ix_(~mask_valid_pd, (2, 4))] = -1.0"))
bug("c09-od-iou", "C09", OE, ("            pairs[~mask_valid_pd | ~mask_valid_gt, 5] = 0.0\n", "            pairs[~mask_valid_pd & ~mask_valid_gt, 5] = 0.0\n"))
bug("c09-od-and", "C09", OE, ("            mask_valid = mask_valid_gt | mask_valid_pd\n", "            mask_valid = mask_valid_gt & mask_valid_pd\n"))
bug("c09-od-invalid", "C09", OE, ("~mask_valid | (pairs[:, (1, 2)] < 0).all(axis=1)", "~mask_valid | (pairs[:, (1, 2)] < 0).any(axis=1)"))
bug("c09-od-gtlabel", "C09", OE, ('                        for col in ("datum_id", "gt_id", "gt_label_id")', '                        for col in ("datum_id", "pd_id", "gt_label_id")'))
bug("c09-od-meta", "C09", OE, ("                rows_per_file=self._detailed_reader.rows_per_file,\n", ""))
bug("c07-od-off", "C07", OE, ("            limit=limit,\n            offset=offset,\n", "            limit=limit,\n            offset=offset or 0 if limit else 0,\n"))
bug("c34-ex-fp", "C34", OE, ("            mask_fp = mask_fp_fn_misclf | mask_fp_unmatched\n", "            mask_fp = mask_fp_unmatched\n"))
bug("c17-od-rank-once", "C17", OE, ("        elif self._ranked_writer.count_rows() > 0:\n", "        elif self._ranked_writer.count_rows() > batch_size:\n"))
bug("c17-od-reader", "C17", OE, ("        self._rank(batch_size)\n\n        ranked_reader = self._ranked_writer.to_reader()\n", "        ranked_reader = self._ranked_writer.to_reader()\n        self._rank(batch_size)\n"))
bug("c18-od-order", "C18", OS, ("        gt_labels.pop(-1, None)\n        index_to_label.update(gt_labels)", "        gt_labels.pop(0, None)\n        index_to_label.update(gt_labels)"))
bug("c11-od-sort", "C11", OE, ("                iou_thresholds=np.array(iou_thresholds),\n                score_thresholds=np.array(score_thresholds),\n                number_of_groundtruths_per_label", "                iou_thresholds=np.sort(np.array(iou_thresholds)),\n                score_thresholds=np.array(score_thresholds),\n                number_of_groundtruths_per_label"))
bug("c11-od-mask-acc", "C11", OC, ("            mask_fp_inner = mask_fp_outer & mask_score_thresh\n", "            mask_fp_outer &= mask_score_thresh\n            mask_fp_inner = mask_fp_outer\n"))
bug("c11-od-greedy-in", "C11", OC, ("            mask_score = mask_score_nonzero & mask_score_threshold\n", "            mask_score_nonzero &= mask_score_threshold\n            mask_score = mask_score_nonzero\n"))

# --- semantic segmentation
SC, SE, SL, SSH, SU, SA = ("semantic_segmentation/" + x + ".py" for x in ("computation", "evaluator", "loader", "shared", "utilities", "annotation"))
bug("c40-addat", "C40", SC, ("    np.add.at(\n        confusion_matrix,\n        np.ix_(groundtruth_labels + 1, prediction_labels + 1),\n        intersection_counts.astype(np.uint64),\n    )", "    confusion_matrix[\n        np.ix_(groundtruth_labels + 1, prediction_labels + 1)\n    ] += intersection_counts.astype(np.uint64)"))
bug("c40-bg-and", "C40", SC, ("        groundtruths.any(axis=0) | predictions.any(axis=0)\n", "        groundtruths.any(axis=0) & predictions.any(axis=0)\n"))
bug("c40-bg-size", "C40", SC, ("    background_counts = np.logical_not(\n        groundtruths.any(axis=0) | predictions.any(axis=0)\n    ).sum()", "    background_counts = (\n        groundtruths.shape[1]\n        - groundtruth_counts.sum()\n        - prediction_counts.sum()\n    )"))
bug("c40-swap-axis", "C40", SC, ("    intersected_groundtruth_counts = intersection_counts.sum(axis=1)\n    intersected_prediction_counts = intersection_counts.sum(axis=0)", "    intersected_groundtruth_counts = intersection_counts.any(axis=1)\n    intersected_prediction_counts = intersection_counts.sum(axis=0)"))
bug("c40-um-swap", "C40", SC, ("        (0, prediction_labels + 1),\n", "        (prediction_labels + 1, 0),\n"))
bug("c40-overlap-order", "C40", SA, ("                bitmasks[idx].mask[mask_overlap] = False\n", "                bitmasks[idx - 1].mask[mask_overlap] = False\n"))
bug("c40-overlap-all", "C40", SA, ("                mask_accumulation = mask_accumulation | bitmask.mask\n            else:", "                mask_accumulation = bitmask.mask.copy()\n            else:"))
bug("c40-copy", "C40", SA, ("                mask_accumulation = bitmask.mask.copy()\n", "                mask_accumulation = bitmask.mask\n"), ("                mask_accumulation = mask_accumulation | bitmask.mask\n        if", "                mask_accumulation |= bitmask.mask\n        if"))
bug("c40-zero-rows", "C40", SL, ("                    if counts[idx + 1, pidx + 1] > 0:\n", "                    if idx == pidx or counts[idx + 1, pidx + 1] > 1:\n"))
bug("c40-bg-row", "C40", SL, ("                    \"count\": counts[0, 0],\n                }\n            )\n", "                    \"count\": counts[0, 0],\n                }\n            ) if rows else None\n"))
bug("c40-um-index", "C40", SL, ("                            \"count\": counts[0, idx + 1],", "                            \"count\": counts[0, idx],"))
bug("c40-acc", "C40", SE, ("                    confusion_matrix[idx + 1, pidx + 1] += counts[\n", "                    confusion_matrix[idx + 1, pidx + 1] = counts[\n"))
bug("c40-bg-eval", "C40", SE, ("                mask_null_gts & mask_null_pds\n            ].sum()", "                mask_null_gts | mask_null_pds\n            ].sum()"))
bug("c40-um-eval", "C40", SE, ("                mask_unmatched_gts = mask_gts & mask_null_pds\n", "                mask_unmatched_gts = mask_gts & (ids[:, 2] != idx)\n"))
bug("c40-stack-order", "C40", SL, ("                label_idx = self._add_label(prediction.label)\n                prediction_labels[idx] = label_idx\n", "                label_idx = self._add_label(prediction.label)\n                prediction_labels[label_idx % len(prediction_labels)] = label_idx\n"))
bug("c40-size", "C40", SA, ("        self.size = self.shape[0] * self.shape[1]\n", "        self.size = self.shape[0] * self.shape[0]\n"))
bug("c41-union", "C41", SC, ("        gt_counts[:, np.newaxis] + pd_counts[np.newaxis, :] - intersection_\n", "        gt_counts[np.newaxis, :] + pd_counts[:, np.newaxis] - intersection_\n"))
bug("c41-gt-nounmatched", "C41", SC, ("    gt_counts = confusion_matrix[1:, :].sum(axis=1)\n", "    gt_counts = confusion_matrix[1:, 1:].sum(axis=1)\n"))
bug("c41-acc-bg", "C41", SC, ("        (tp_count + background_count) / n_pixels if n_pixels > 0 else 0.0\n", "        (tp_count + background_count) / n_pixels if tp_count > 0 else 0.0\n"))
bug("c41-acc-total", "C41", SC, ("    n_pixels = confusion_matrix.sum()\n", "    n_pixels = confusion_matrix[1:, 1:].sum() + confusion_matrix[0, 0]\n"))
bug("c41-f1-mean", "C41", SC, ("        2 * (precision * recall),\n", "        (precision + recall) * np.minimum(precision, recall),\n"))
bug("c41-um-swap", "C41", SC, ("        confusion_matrix[0, 1:],\n        pd_counts,", "        confusion_matrix[1:, 0],\n        pd_counts,"))
bug("c41-miou", "C41", SU, ("float(ious.diagonal().mean()) if n_labels > 0 else 0.0", "float(ious.mean()) if n_labels > 0 else 0.0"))
bug("c41-miou-present", "C41", SU, ("float(ious.diagonal().mean()) if n_labels > 0 else 0.0", "float(ious[ious.diagonal() > 0].diagonal().mean()) if n_labels > 0 else 0.0"))
bug("c14-miou-guard", "C14", SU, ("float(ious.diagonal().mean()) if n_labels > 0 else 0.0", "float(ious.diagonal().mean())"))
bug("c12-ss-cm-T", "C12", SU, ("\"iou\": float(ious[gt_label_idx, pd_label_idx])", "\"iou\": float(ious[pd_label_idx, gt_label_idx])"))
bug("c12-ss-iou-label", "C12", SU, ("    for label_idx, label in index_to_label.items():\n", "    for label_idx, label in enumerate(sorted(index_to_label.values())):\n"))
bug("c41-guard1", "C41", SC, ("        where=union_ > 1e-9,\n", "        where=union_ > 1,\n"))
bug("c16-ss-shape", "C16", SA, ("            if self.shape != bitmask.mask.shape:", "            if self.size != bitmask.mask.size:"))
bug("c16-ss-shape0", "C16", SA, ("self.shape[0] <= 0 or self.shape[1] <= 0:", "self.shape[0] <= 0 and self.shape[1] <= 0:"))
bug("c16-ss-preds", "C16", SA, ("        self._validate_bitmasks(self.predictions, \"prediction\")\n", "        if self.groundtruths:\n            self._validate_bitmasks(self.predictions, \"prediction\")\n"))
bug("c16-ss-dtype", "C16", SA, ("        if self.mask.dtype != np.bool_:", "        if self.mask.dtype not in (np.bool_, np.uint8):"))
bug("c09-ss-null", "C09", SE, ("            pairs[~mask_valid_pd, 2] = -1\n", "            pairs[~mask_valid_pd & ~mask_valid_gt, 2] = -1\n"))
bug("c09-ss-col", "C09", SE, ("                        for col in (\"datum_id\", \"pd_label_id\")", "                        for col in (\"datum_id\", \"gt_label_id\")"))
bug("c15-ss-int", "C15", SE, ("            (n_labels + 1, n_labels + 1), dtype=np.uint64\n", "            (n_labels + 1, n_labels + 1), dtype=np.uint32\n"))
bug("c15-ss-schema", "C15", SSH, ("(\"count\", pa.uint64())", "(\"count\", pa.uint32())"))
bug("c08-ss-info", "C08", SSH, ("    for tbl in reader.iterate_tables(filter=datums):\n\n        # count datums", "    for tbl in reader.iterate_tables():\n\n        # count datums"))
bug("c15-ss-null-gt", "C15", SSH, ("        gt_expr = pc.field(\"gt_label_id\") >= 0\n        if groundtruths is not None:\n            gt_expr &= groundtruths", "        gt_expr = pc.field(\"gt_label_id\") >= 0\n        if groundtruths is not None:\n            gt_expr = groundtruths"))
bug("c20-ss-dcount", "C40", SL, ("            self._writer.write_rows(rows)\n\n            # update datum count\n            self._datum_count += 1", "            if rows[:-1]:\n                self._writer.write_rows(rows)\n\n            # update datum count\n            self._datum_count += 1"))
bug("c18-ss-nlab", "C18", SL, ("            n_labels = len(self._labels)\n            counts", "            n_labels = len(\n                {x.label for x in segmentation.groundtruths}\n                | {x.label for x in segmentation.predictions}\n            )\n            counts"))

# --- text generation
TC, TM, TT = "text_generation/computation.py", "text_generation/manager.py", "text_generation/metric.py"
TU, TV, TGN, TI, TX = "text_generation/llm/utilities.py", "text_generation/llm/validators.py", "text_generation/llm/generation.py", "text_generation/llm/integrations.py", "text_generation/llm/instructions.py"
bug("c50-lazy", "C50", TU, ("r\"\\{[\\s\\S]*\\}\"", "r\"\\{[\\s\\S]*?\\}\""))
bug("c50-nodotall", "C50", TU, ("r\"\\{[\\s\\S]*\\}\"", "r\"\\{.*\\}\""))
bug("c50-match", "C50", TU, ("match = re.search(pattern, text)", "match = re.match(pattern, text)"))
bug("c50-valerr", "C50", TU, ("    except json.JSONDecodeError as e:\n        raise InvalidLLMResponseError(", "    except TypeError as e:\n        raise InvalidLLMResponseError("))
bug("c50-int-sign", "C50", TU, ("r\"-?\\d+\"", "r\"\\d+\""))
bug("c50-int-digit", "C50", TU, ("r\"-?\\d+\"", "r\"-?\\d\""))
bug("c50-any", "C50", TV, ("or not all([isinstance(v, str) for v in response[key]])", "or not any([isinstance(v, str) for v in response[key]])"))
bug("c50-len-le", "C50", TV, ("    elif enforce_length is not None and enforce_length != len(response[key]):\n        raise InvalidLLMResponseError(\n            f\"LLM response does not match input size of '{enforce_length}': {response}\"\n        )\n\n    for value", "    elif enforce_length is not None and enforce_length > len(response[key]):\n        raise InvalidLLMResponseError(\n            f\"LLM response does not match input size of '{enforce_length}': {response}\"\n        )\n\n    for value"))
bug("c50-len-truthy", "C50", TV, ("    elif enforce_length is not None and enforce_length != len(response[key]):\n        raise InvalidLLMResponseError(\n            f\"LLM response does not match input size of '{enforce_length}': {response}\"\n        )\n\n    for value", "    elif enforce_length and enforce_length != len(response[key]):\n        raise InvalidLLMResponseError(\n            f\"LLM response does not match input size of '{enforce_length}': {response}\"\n        )\n\n    for value"))
bug("c50-keys-subset", "C50", TV, ("set(value.keys()) != {\"verdict\", \"analysis\"}", "not set(value.keys()) <= {\"verdict\", \"analysis\"}"))
bug("c50-first", "C50", TV, ("    for value in response[key]:\n        if not isinstance(value, dict):", "    for value in response[key][:enforce_length]:\n        if not isinstance(value, dict):"))
bug("c50-lower", "C50", TV, ("and value[\"verdict\"] not in allowed_values", "and value[\"verdict\"].lower() not in allowed_values"))
bug("c50-first-key", "C50", TGN, ("    for key in keys:\n        validator(\n            response=response,\n            key=key,\n            allowed_values=allowed_values,\n            enforce_length=enforce_length,\n        )\n    return response", "    key = next(iter(keys))\n    validator(\n        response=response,\n        key=key,\n        allowed_values=allowed_values,\n        enforce_length=enforce_length,\n    )\n    return response"))
bug("c50-idk", "C50", TGN, ("        allowed_values={\"yes\", \"no\", \"idk\"},", "        allowed_values={\"yes\", \"no\", \"idk\", \"\"},"))
bug("c50-coh-zero", "C50", TGN, ("    if ret is None:\n", "    if not ret:\n"))
bug("c50-coh-range", "C50", TGN, ("    if ret not in {1, 2, 3, 4, 5}:", "    if ret not in range(6):"))
bug("c50-tpfp", "C50", TGN, ("len(response[\"TP\"]) + len(response[\"FP\"]) != len(prediction_statements)", "len(response[\"TP\"]) + len(response[\"FP\"]) > len(prediction_statements)"))
bug("c50-fn", "C50", TGN, ("len(response[\"FN\"]) > len(groundtruth_statements)", "len(response[\"FN\"]) + len(response[\"TP\"]) > len(groundtruth_statements)"))
bug("c50-enf-wrong", "C50", TGN, ("        enforce_length=len(groundtruth_statements),", "        enforce_length=len(context_list),"))
bug("c51-retries", "C51", TM, ("for _ in range(1 + retries):", "for _ in range(max(1, retries)):"))
bug("c51-except", "C51", TM, ("            except InvalidLLMResponseError as e:\n                error = e", "            except (InvalidLLMResponseError, ValueError) as e:\n                error = e"))
bug("c51-first-error", "C51", TM, ("                error = e\n", "                error = error or e\n"))
bug("c51-nodeco", "C51", TM, ("    @llm_guided_metric\n    def compute_summary_coherence(", "    def compute_summary_coherence("))
bug("c51-errname", "C51", TM, ("error_type=type(error).__name__", "error_type=InvalidLLMResponseError.__name__"))
bug("c51-seed", "C51", TM, ("        if seed is not None:\n            if retries != 0:", "        if seed:\n            if retries != 0:"))
bug("c51-mistral", "C51", TM, ("        client = MistralWrapper(\n            api_key=api_key,\n            model_name=model_name,\n        )\n        return cls(\n            client=client,\n            retries=retries,\n", "        client = MistralWrapper(\n            api_key=api_key,\n            model_name=model_name,\n        )\n        return cls(\n            client=client,\n"))
bug("c51-client-retry", "C51", TGN, ("    response = client(messages)\n    response = trim_and_load_json(response)\n", "    response = client(messages)\n    try:\n        response = trim_and_load_json(response)\n    except InvalidLLMResponseError:\n        response = trim_and_load_json(client(messages))\n"))
bug("c52-ctx-first", "C52", TX, ("{context_list}\n\nText", "{context_list[:10]}\n\nText"))
bug("c52-swap", "C52", TX, ("    {text}\n", "    {summary}\n"))
bug("c52-trunc", "C52", TGN, ("\"content\": format_claims_instruction(text=text)", "\"content\": format_claims_instruction(text=text[:4096])"))
bug("c52-strip", "C52", TX, ("{prediction_statements}\n", "{sorted(prediction_statements)}\n"))
bug("c52-sys", "C52", TGN, ("        {\"role\": \"system\", \"content\": system_prompt},\n        {\n            \"role\": \"user\",\n            \"content\": format_summary_coherence_instruction(", "        {\"role\": \"user\", \"content\": system_prompt},\n        {\n            \"role\": \"user\",\n            \"content\": format_summary_coherence_instruction("))
bug("c52-key", "C52", TX, ("Return in JSON format with the \"claims\" key", "Return in JSON format with the \"statements\" key"))
bug("c53-idk", "C53", TC, ("    return sum(verdict[\"verdict\"] == \"yes\" for verdict in verdicts) / len(\n        verdicts\n    )\n\n\ndef calculate_bias", "    return sum(verdict[\"verdict\"] != \"no\" for verdict in verdicts) / len(\n        verdicts\n    )\n\n\ndef calculate_bias"))
bug("c53-f1", "C53", TC, ("tp / (tp + 0.5 * (fp + fn)) if tp > 0 else 0", "2 * tp / (tp + fp + fn) if tp > 0 else 0"))
bug("c53-f1-last", "C53", TC, ("        f1_scores.append(tp / (tp + 0.5 * (fp + fn)) if tp > 0 else 0)\n\n    return max(f1_scores)", "        f1_scores.append(tp / (tp + 0.5 * (fp + fn)) if tp > 0 else 0)\n\n    return f1_scores[-1]"))
bug("c53-agg-break", "C53", TC, ("            if verdicts[i][\"verdict\"] == \"yes\":\n                aggregate_verdicts[i] = \"yes\"", "            aggregate_verdicts[i] = verdicts[i][\"verdict\"]"))
bug("c53-prec-k", "C53", TC, ("    for k in range(1, len(predicted_context) + 1):", "    for k in range(1, len(predicted_context)):"))
bug("c53-prec-all", "C53", TC, ("    return sum(precision_at_k_list) / len(precision_at_k_list)", "    return sum(precision_at_k_list) / len(predicted_context)"))
bug("c53-recall-max", "C53", TC, ("    return max(scores)\n", "    return sum(scores) / len(scores)\n"))
bug("c53-recall-zero", "C53", TC, ("            / len(verdicts)\n            if len(verdicts) > 0\n            else 0.0", "            / max(len(verdicts), 1)\n            if len(groundtruth_statements) > 0\n            else 1.0"))
bug("c53-faith-empty", "C53", TC, ("    if len(claims) == 0:\n        return 1.0", "    if len(claims) == 0:\n        return 0.0"))
bug("c53-faith-order", "C53", TC, ("    if len(context) == 0:\n        return 0.0\n\n    claims", "    claims"))
bug("c53-hall-empty", "C53", TC, ("    if len(context) == 0:\n        raise ValueError(\"Hallucination requires context to be calculated.\")\n", "    if len(context) == 0:\n        return 0.0\n"))
bug("c53-bias-noguard", "C53", TC, ("    if len(opinions) == 0:\n        return 0.0\n\n    verdicts = generate_bias_verdicts(", "    verdicts = generate_bias_verdicts("))
bug("c53-tox-len", "C53", TC, ("        opinions=opinions,\n    )\n    return sum(verdict[\"verdict\"] == \"yes\" for verdict in verdicts) / len(\n        verdicts\n    )\n\n\ndef calculate_rouge", "        opinions=opinions,\n    )\n    return sum(verdict[\"verdict\"] == \"yes\" for verdict in verdicts) / len(\n        set(opinions)\n    )\n\n\ndef calculate_rouge"))
bug("c53-ctx-both", "C53", TC, ("    if len(predicted_context) == 0 and len(groundtruth_context) == 0:\n        return 1.0\n    elif len(predicted_context) == 0 or len(groundtruth_context) == 0:\n        return 0.0\n\n    scores", "    if len(predicted_context) == 0 or len(groundtruth_context) == 0:\n        return 0.0\n\n    scores"))
bug("c53-rouge-max", "C53", TC, ("results[type_] = max(metrics[type_][0], 0.0)", "results[type_] = max(metrics[type_])"))
bug("c53-rouge-ref", "C53", TC, ("        references=[references],", "        references=references,"))
bug("c53-bleu-eps", "C53", TC, ("return result if result >= 1e-9 else 0.0", "return result if result >= 1e-2 else 0.0"))
bug("c54-query", "C54", TM, ("            query=response.query,\n            context=response.context.prediction,", "            query=response.query,\n            context=response.context.groundtruth,"))
bug("c54-swapctx", "C54", TM, ("            predicted_context=response.context.prediction,\n            groundtruth_context=response.context.groundtruth,\n        )\n        return Metric.context_recall", "            predicted_context=response.context.groundtruth,\n            groundtruth_context=response.context.prediction,\n        )\n        return Metric.context_recall"))
bug("c54-type", "C54", TM, ("        return Metric.context_recall(", "        return Metric.context_precision("))
bug("c54-all-stem", "C54", TM, ("            use_stemmer=rouge_use_stemmer,\n", ""))
bug("c54-all-weights", "C54", TM, ("self.compute_sentence_bleu(response=response, weights=bleu_weights)", "self.compute_sentence_bleu(response=response)"))
bug("c54-all-key", "C54", TM, ("        results[MetricType.Hallucination] = [", "        results[MetricType.Faithfulness] = ["))
bug("c54-ctx-guard", "C54", TM, ("        if not response.context:\n            raise ValueError(\"The faithfulness metric requires context.\")\n", "        if response.context is None:\n            return Metric.faithfulness(value=0.0, model_name=self.client.model_name, retries=self.retries)\n"))
bug("c54-all-skip", "C54", TM, ("        results[MetricType.Toxicity] = [self.compute_toxicity(response)]\n", "        if MetricType.Toxicity not in results and response.context:\n            results[MetricType.Toxicity] = [self.compute_toxicity(response)]\n"))
bug("c54-zip", "C54", TM, ("            for rouge_type, result in results.items()\n", "            for rouge_type, result in zip(rouge_types, sorted(results.values()))\n"))
bug("c54-metric-ret", "C54", TT, ("            parameters={\n                \"evaluator\": model_name,\n                \"retries\": retries,\n            },\n        )\n\n    @classmethod\n    def bleu", "            parameters={\n                \"evaluator\": model_name,\n            },\n        )\n\n    @classmethod\n    def bleu"))
bug("c54-sys", "C54", TM, ("            system_prompt=self.default_system_prompt,\n            text=response.query,", "            system_prompt=response.query,\n            text=response.query,"))
bug("c55-usage", "C55", TI, ("            self.total_prompt_tokens += openai_response.usage.prompt_tokens", "            self.total_prompt_tokens = openai_response.usage.prompt_tokens"))
bug("c55-finish", "C55", TI, ("        if finish_reason == \"length\":\n", "        if finish_reason == \"length\" and not response:\n"))
bug("c55-mistral", "C55", TI, ("finish_reason in (\"length\", \"model_length\")", "finish_reason in (\"length\")"))
bug("c55-seed", "C55", TI, ("            seed=self.seed,\n        )", "            seed=self.seed or None,\n        )"))
bug("c55-strip", "C55", TI, ("        if response is None:\n            response = \"\"\n        return response", "        return (response or \"\").strip()"))
bug("c55-valid", "C55", TI, ("    if not all(\n        \"role\" in message and \"content\" in message for message in messages\n    ):", "    if not all(\n        \"role\" in message or \"content\" in message for message in messages\n    ):"))
bug("c55-msgs", "C55", TI, ("            messages=messages,  # type: ignore - mistralai issue", "            messages=messages[-1:],  # type: ignore - mistralai issue"))
bug("c55-choice", "C55", TI, ("        finish_reason = openai_response.choices[\n            0\n        ]", "        finish_reason = openai_response.choices[\n            -1\n        ]"))
bug("c55-tokens-after", "C55", TI, ("        if finish_reason == \"length\":\n            raise ValueError(\n                \"OpenAI", "        if finish_reason == \"length\" and self.seed is None:\n            raise ValueError(\n                \"OpenAI"))
bug("c55-noval", "C55", TI, ("        _validate_messages(messages)\n\n        mistral", "        if len(messages) > 2:\n            _validate_messages(messages)\n\n        mistral"))

# --- reporting, annotations and shared functions
CU, CSH, CM = "classification/utilities.py", "classification/shared.py", "classification/metric.py"
OU, OSH, OA, OM = "object_detection/utilities.py", "object_detection/shared.py", "object_detection/annotation.py", "object_detection/metric.py"
SU, SSH2 = "semantic_segmentation/utilities.py", "semantic_segmentation/shared.py"
bug("c12-cl-label-pos", "C12", CU, ("    for label_idx, label in index_to_label.items():\n        for score_idx, score_threshold in enumerate(score_thresholds):\n            kwargs", "    for label_idx, label in enumerate(index_to_label.values()):\n        for score_idx, score_threshold in enumerate(score_thresholds):\n            kwargs"))
bug("c12-cl-sorted-thr", "C12", CU, ("        for score_idx, score_threshold in enumerate(score_thresholds):\n            kwargs", "        for score_idx, score_threshold in enumerate(sorted(score_thresholds)):\n            kwargs"))
bug("c12-cl-f1recall", "C12", CU, ("value=float(f1_score[score_idx, label_idx])", "value=float(recall[score_idx, label_idx])"))
bug("c13-cl-fn-nonint", "C13", CU, ("fn=int(row[score_idx, 2])", "fn=row[score_idx, 2]"))
bug("c12-cl-cm-trans", "C12", CU, ("                    confusion_matrices[score_idx, idx, pidx]", "                    confusion_matrices[score_idx, pidx, idx]"))
bug("c12-cl-cm-noreset", "C12", CU, ("    metrics = []\n    for score_idx, score_thresh in enumerate(score_thresholds):\n        cm_dict = {}\n        ugt_dict = {}\n", "    metrics = []\n    ugt_dict = {}\n    for score_idx, score_thresh in enumerate(score_thresholds):\n        cm_dict = {}\n"))
bug("c23-cl-ex-intp", "C23", CU, ("                for row in unique_fn\n                if index_to_label[row[1]] not in tp", "                for row in unique_fn\n                if index_to_label[row[1]] not in fp"))
bug("c23-cl-ex-mask", "C23", CU, ("        mask_datum_fn = mask_fn & mask_datum\n", "        mask_datum_fn = mask_fn & mask_datum & ~mask_tp\n"))
bug("c23-cl-ex-skip", "C23", CU, ("            metrics.append(\n                Metric.examples(\n                    datum_id=datum_id,", "            if not (tp or fp or fn):\n                continue\n            metrics.append(\n                Metric.examples(\n                    datum_id=datum_id,"))
bug("c23-cl-cme-score", "C23", CU, ("        scores = scores[mask_matched][unique_match_indices]\n", "        scores = scores[mask_matched]\n"))
bug("c23-cl-cme-max", "C23", CU, ("    n_max = max(n_matched, n_unmatched_groundtruths)\n    for idx", "    n_max = n_matched or n_unmatched_groundtruths\n    for idx"))
bug("c23-cl-cme-shared", "C23", CU, ("    for label in index_to_label.values():\n        unmatched_groundtruths[label] = {\"count\": 0, \"examples\": []}\n        confusion_matrix[label] = {}\n", "    empty = []\n    for label in index_to_label.values():\n        unmatched_groundtruths[label] = {\"count\": 0, \"examples\": empty}\n        confusion_matrix[label] = {}\n"))
bug("c23-cl-cme-elif", "C23", CU, ("        if idx < n_unmatched_groundtruths:\n            datum_id = index_to_datum_id[unique_unmatched_groundtruths[idx, 0]]", "        elif idx < n_unmatched_groundtruths:\n            datum_id = index_to_datum_id[unique_unmatched_groundtruths[idx, 0]]"))
bug("c23-cl-map", "C23", CU, ("    indices = indices[values >= 0]\n", "    indices = indices[values > 0]\n"))
bug("c08-cl-extract-labels", "C18", CSH, ("        gt_labels.pop(-1, None)\n        index_to_label.update(gt_labels)\n", "        gt_labels.pop(-1, None)\n        index_to_label = gt_labels\n"))
bug("c18-cl-zip", "C18", CSH, ("        pd_labels = tbl[\"pd_label\"].take(pd_indices).to_pylist()\n", "        pd_labels = tbl[\"pd_label\"].unique().to_pylist()\n"))
bug("c15-cl-gtpd", "C09", CSH, ("        if predictions is not None:\n            pd_expr &= predictions\n", "        if predictions is not None:\n            pd_expr |= predictions\n"))
bug("c21-cl-pop", "C21", CSH, ("        label_counts[unique_gt_labels, 0] += gt_label_counts.astype(np.uint64)\n", "        label_counts[unique_gt_labels, 0] = gt_label_counts.astype(np.uint64)\n"))
bug("c21-cl-uniq", "C21", CSH, ("        unique_gts = np.unique(gt_ids, axis=0)\n", "        unique_gts = gt_ids\n"))
bug("c15-cl-dcount", "C15", CSH, ("        n_dts += int(np.unique(tbl[\"datum_id\"].to_numpy()).shape[0])", "        n_dts = max(n_dts, int(np.unique(tbl[\"datum_id\"].to_numpy()).shape[0]))"))
bug("c04-cl-encode", "C04", CSH, ("    return {k: str(v) for k, v in metadata_fields}", "    return {k: str(v) for k, v in metadata_fields if isinstance(v, str)}"))
bug("c04-cl-decode", "C04", CSH, ("    return [(k, v) for k, v in encoded_metadata_fields.items()]", "    return [(k, v) for k, v in sorted(encoded_metadata_fields.items())]"))
bug("c16-cl-reserved", "C16", CSH, ("    if conflicting := reserved_field_names & metadata_field_names:", "    if (conflicting := reserved_field_names & metadata_field_names) and len(conflicting) == len(metadata_field_names):"))
bug("c12-od-ap-t", "C12", OU, ("            value=float(average_precision[iou_idx][label_idx]),", "            value=float(average_precision[iou_idx - 1][label_idx]),"))
bug("c12-od-ar-axis", "C12", OU, ("            value=float(average_recall.mean(axis=0)[label_idx]),", "            value=float(average_recall.mean(axis=0)[label_idx - 1]),"))
bug("c12-od-cm-idx", "C12", OU, ("                    unmatched_predictions[iou_idx, score_idx, idx]", "                    unmatched_predictions[iou_idx, 0, idx]"))
bug("c12-od-prswap", "C12", OU, ("            precisions=pr_curve[iou_idx, label_idx, :, 0].tolist(),\n            scores=pr_curve[iou_idx, label_idx, :, 1].tolist(),", "            precisions=pr_curve[iou_idx, label_idx, :, 1].tolist(),\n            scores=pr_curve[iou_idx, label_idx, :, 0].tolist(),"))
bug("c13-od-pr-nolist", "C13", OU, ("            scores=pr_curve[iou_idx, label_idx, :, 1].tolist(),", "            scores=pr_curve[iou_idx, label_idx, :, 1],"))
bug("c34-od-ex-fpcols", "C34", OU, ("                fp = [index_to_prediction_id[row[1]] for row in unique_fp]", "                fp = [index_to_prediction_id[row[1]] for row in unique_fp if row[1] not in unique_tp[:, 2]]"))
bug("c34-od-cme-col", "C34", OU, ("            glabel = index_to_label[unique_matches[idx, 3]]\n            plabel = index_to_label[unique_matches[idx, 4]]", "            glabel = index_to_label[unique_matches[idx, 4]]\n            plabel = index_to_label[unique_matches[idx, 3]]"))
bug("c34-od-cme-max", "C34", OU, ("    n_max = max(n_matched, n_unmatched_groundtruths, n_unmatched_predictions)", "    n_max = max(n_matched, n_unmatched_groundtruths)"))
bug("c34-od-cme-mask", "C34", OU, ("    mask_matched = mask_tp | mask_fp_fn_misclf\n", "    mask_matched = mask_tp | (mask_fp_fn_misclf & ~mask_fp_unmatched)\n"))
bug("c34-od-cme-count", "C34", OU, ("            metric.value[\"unmatched_predictions\"][label][\"count\"] += 1\n", "            metric.value[\"unmatched_predictions\"][label][\"count\"] = n_unmatched_predictions\n"))
bug("c08-od-counts", "C08", OSH, ("        numeric_columns=[\"gt_id\", \"gt_label_id\"],\n        filter=datums,\n", "        numeric_columns=[\"gt_id\", \"gt_label_id\"],\n"))
bug("c33-od-gtcount", "C33", OSH, ("        unique_ann = np.unique(gts[gts[:, 0] >= 0], axis=0)\n", "        unique_ann = np.unique(gts[gts[:, 1] > 0], axis=0)\n"))
bug("c09-od-npds", "C09", OSH, ("            pds = tbl.filter(predictions)[\"pd_id\"].to_numpy()\n", "            pds = tbl.filter(predictions)[\"gt_id\"].to_numpy()\n"))
bug("c15-od-gtcount-set", "C15", OSH, ("            gt_counts_per_lbl[int(label_id)] += int(count)\n", "            gt_counts_per_lbl[int(label_id)] = max(gt_counts_per_lbl[int(label_id)], int(count))\n"))
bug("c16-od-empty", "C16", OA, ("        if self.shape.is_empty:\n            raise ValueError(\"Polygon is empty.\")\n\n        if", "        if not self.shape.is_valid:\n            raise ValueError(\"Polygon is empty.\")\n\n        if"))
bug("c16-od-bm-scores", "C16", OA, ("        elif not self.mask.any():\n            raise ValueError(\"Mask does not define any object instances.\")\n\n        if len(self.scores) == 0 and len(self.labels) != 1:", "        elif not self.mask.any():\n            raise ValueError(\"Mask does not define any object instances.\")\n\n        if len(self.scores) == 0 and len(self.labels) == 0:"))
bug("c30-od-extrema", "C30", OA, ("return (self.xmin, self.xmax, self.ymin, self.ymax)", "return (self.xmin, self.ymin, self.xmax, self.ymax)"))
bug("c41-su-iou", "C12", SU, ("                value=float(ious[label_idx, label_idx]),", "                value=float(ious[label_idx].max()),"))
bug("c41-su-miou", "C41", SU, ("            value=float(ious.diagonal().mean()) if n_labels > 0 else 0.0,", "            value=float(ious.diagonal()[:n_labels - 1].mean()) if n_labels > 1 else 0.0,"))
bug("c41-su-swapratio", "C12", SU, ("                    \"ratio\": float(unmatched_ground_truth_ratios[gt_label_idx])", "                    \"ratio\": float(unmatched_prediction_ratios[gt_label_idx])"))
bug("c13-cl-bool", "C13", CM, ("        elif not all([isinstance(k, str) for k in self.parameters.keys()]):", "        elif not any([isinstance(k, str) for k in self.parameters.keys()]):"))
bug("c13-cl-type", "C13", CM, ("        elif not isinstance(self.value, (int, float, dict)):", "        elif not isinstance(self.value, (int, float, dict)) and self.value:"))
bug("c12-cl-hardmax", "C12", CM, ("            type=MetricType.Recall.value,\n            value=value,\n            parameters={\n                \"score_threshold\": score_threshold,\n                \"hardmax\": hardmax,", "            type=MetricType.Recall.value,\n            value=value,\n            parameters={\n                \"score_threshold\": score_threshold,\n                \"hardmax\": bool(score_threshold),"))

# --- second look at classification and caches
CE, CC, CLD, XC = "classification/evaluator.py", "classification/computation.py", "classification/loader.py", "cache/compute.py"
bug("d22-sort-match", "C22", CE, ("                (\"match\", \"ascending\"),\n            ],\n            columns", "                (\"match\", \"descending\"),\n            ],\n            columns"))
bug("d22-cols", "C22", CE, ("                \"pd_score\",\n                \"match\",\n            ],\n        )\n        intermediate", "                \"pd_score\",\n                \"match\",\n            ],\n            table_sort_override=lambda t: t.sort_by(\"pd_score\"),\n        )\n        intermediate"))
bug("d22-indices-off", "C22", CE, ("                    )[0]\n                    - 1\n", "                    )[0]\n"))
bug("d22-lastpair", "C22", CE, ("                    last_pair[idx, 1] = tp\n", "                    last_pair[idx, 1] = max(tp, last_pair[idx, 1])\n"))
bug("d22-remaining-range", "C22", CE, ("        for idx in range(n_labels):\n            last_fp", "        for idx in range(1, n_labels):\n            last_fp"))
bug("d22-maxscore-init", "C22", CE, ("        running_max_scores = np.zeros(n_labels, dtype=np.float64)", "        running_max_scores = np.ones(n_labels, dtype=np.float64)"))
bug("d17-final-check", "C17", CE, ("        elif self._roc_curve_writer.count_rows() > 0:", "        elif self._intermediate_writer.count_rows() > 0 and self._roc_curve_writer.count_rows() > 1:"))
bug("d17-sortkeys", "C10", CE, ("                (\"pd_score\", \"descending\"),\n                (\"datum_id\", \"ascending\"),\n                (\"gt_label_id\"", "                (\"datum_id\", \"ascending\"),\n                (\"gt_label_id\""))
bug("d04-load-override", "C04", CE, ("            index_to_label_override=index_to_label_override,\n        )\n\n        # read config", "        )\n        index_to_label.update(index_to_label_override or {})\n\n        # read config"))
bug("d09-filter-batch", "C09", CE, ("                rows_per_file=self._reader.rows_per_file,\n", "                rows_per_file=self._reader.batch_size,\n"))
bug("d09-filter-gtids", "C09", CE, ("            pd_ids = pairs[:, (0, 2)].astype(np.int64)", "            pd_ids = pairs[:, (1, 2)].astype(np.int64)"))
bug("d09-filter-or", "C09", CE, ("                    mask_valid_pd |= (pd_ids == pd).all(axis=1)", "                    mask_valid_pd |= (pd_ids == pd).any(axis=1)"))
bug("d09-filter-override", "C09", CE, ("        return loader.finalize(index_to_label_override=self._index_to_label)", "        return loader.finalize(\n            index_to_label_override=self._index_to_label if datums is not None else None\n        )"))
bug("d09-filter-path", "C09", CE, ("            if not path:\n                raise ValueError(\n                    \"expected path to be defined for file-based loader\"\n                )\n", "            if path is None:\n                path = self._reader._path.parent / \"filtered\"\n"))
bug("d22-labelcounts", "C22", CE, ("                gt_count_per_label=label_counts[:, 0],\n                pd_count_per_label=label_counts[:, 1],", "                gt_count_per_label=label_counts[:, 0],\n                pd_count_per_label=label_counts.sum(axis=1),"))
bug("d22-mean", "C22", CE, ("        mean_rocauc = rocauc.mean()", "        mean_rocauc = rocauc[rocauc > 0].mean() if rocauc.any() else 0.0"))
bug("d08-ndatums", "C08", CE, ("        info = self.get_info(datums=datums)\n        n_datums = info.number_of_datums", "        info = self.info\n        n_datums = info.number_of_datums"))
bug("d21-hardmax", "C21", CC, ("        if hardmax:\n            mask_score &= mask_hardmax\n\n        mask_tp", "        if hardmax and n_labels > 1:\n            mask_score &= mask_hardmax\n\n        mask_tp"))
bug("d21-fn-dedup", "C21", CC, ("        fn = np.unique(ids[mask_fn][:, [0, 1]].astype(int), axis=0)", "        fn = ids[mask_fn][:, [0, 1]].astype(int)"))
bug("d21-isclose-scores", "C21", CC, ("    mask_score_nonzero = ~np.isclose(scores, 0.0)\n    mask_hardmax", "    mask_score_nonzero = ~np.isclose(scores, 0.0, atol=1e-2)\n    mask_hardmax"))
bug("d23-misclf-valid", "C23", CC, ("        mask_misclassifications = ~mask_label_match & mask_score", "        mask_misclassifications = ~mask_label_match & mask_score & winners"))
bug("d23-unmatched-any", "C23", CC, ("            .all(axis=2)\n            .any(axis=1)", "            .any(axis=2)\n            .any(axis=1)"))
bug("d23-cm-noinc", "C23", CC, ("            unique_pairs[:, (1, 2)], axis=0, return_counts=True", "            unique_pairs[:, (2, 1)], axis=0, return_counts=True"))
bug("d14-f1-eps", "C14", CC, ("        where=(precision + recall) > 1e-9,", "        where=(precision * recall) >= 0,"))
bug("d14-acc-guard", "C14", CC, ("    if n_datums == 0:\n        return accuracy\n", ""))
bug("d20-argmax", "C20", CLD, ("            max_score_idx = np.argmax(np.array(classification.scores))", "            max_score_idx = len(classification.scores) - 1 - np.argmax(np.array(classification.scores)[::-1])"))
bug("d20-meta-order", "C20", CLD, ("                        # metadata\n                        **datum_metadata,\n", ""), ("                        \"match\": (gidx == pidx) and pidx >= 0,\n", "                        \"match\": (gidx == pidx) and pidx >= 0,\n                        **datum_metadata,\n"))
bug("d20-skip-zero", "C20", CLD, ("                pidx = self._add_label(plabel)\n                rows.append", "                pidx = self._add_label(plabel)\n                if score <= 0.0 and idx != max_score_idx:\n                    continue\n                rows.append"))
bug("d06-mem-nosort", "C06", XC, ("        intermediate_sink.sort_by(sorting)\n", "        intermediate_sink.sort_by(sorting[:1])\n"))
bug("d06-key-last", "C06", XC, ("            if direction == \"descending\"\n            else", "            if direction == \"descending\" and len(sorting) > 1\n            else"))
bug("d06-single", "C06", XC, ("    if source.count_tables() == 1:", "    if source.count_tables() <= 2:"))
bug("d06-empty-next", "C06", XC, ("            batches[batch_idx] = next(batch_iterators[batch_idx], None)\n            if batches[batch_idx] is not None and len(batches[batch_idx]) > 0:\n                heapq.heappush", "            batches[batch_idx] = next(batch_iterators[batch_idx], None)\n            if batches[batch_idx] is not None and len(batches[batch_idx]) > 1:\n                heapq.heappush"))
bug("d07-le", "C07", XC, ("        if curr_idx <= offset:\n", "        if curr_idx < offset:\n"))
bug("d07-total", "C07", XC, ("    elif offset >= total:\n        return\n", "    elif offset + limit >= total:\n        return\n"))
bug("d07-skip", "C07", XC, ("        if prev_idx < (offset + limit) and curr_idx > (offset + limit):", "        if prev_idx <= offset and curr_idx > (offset + limit):"))
bug("d07-sorted", "C07", XC, ("unique_values = pc.unique(tbl[column_key]).sort()", "unique_values = pc.unique(tbl[column_key])"))

# --- object detection computation, second look
bug("e30-maxside", "C30", OC, ("    xmax = np.minimum(xmax1, xmax2)\n", "    xmax = np.maximum(xmax1, xmax2)\n"))
bug("e30-area2", "C30", OC, ("    area2 = (xmax2 - xmin2) * (ymax2 - ymin2)\n", "    area2 = (xmax2 - xmin2) * (ymax2 - ymin1)\n"))
bug("e30-axis", "C30", OC, ("    rhs_sum = rhs.sum(axis=1)\n", "    rhs_sum = rhs.sum(axis=0)\n"))
bug("e30-poly-where", "C30", OC, ("        where=union_areas >= EPSILON,\n", "        where=intersection_areas >= 1e-3,\n"))
bug("e30-or", "C30", OC, ("np.logical_and(lhs, rhs).sum(axis=1)", "np.logical_or(lhs, rhs).sum(axis=1)"))
bug("e30-dtype", "C30", OC, ("    ious = np.zeros(n_pairs, dtype=np.float64)\n    np.divide(\n        intersection_area,\n", "    ious = np.zeros(n_pairs, dtype=np.float32)\n    np.divide(\n        intersection_area,\n"))
bug("e32-matchid", "C32", OC, ("    matched_predictions = np.unique(pairs[mask_label_match, 2])\n", "    matched_predictions = np.unique(pairs[mask_label_match & (pairs[:, 5] > 0), 2])\n"))
bug("e32-noindices", "C32", OC, ("    pairs = pairs[unique_indices]\n    indices = indices[unique_indices]\n", "    pairs = pairs[unique_indices]\n    indices = np.arange(len(unique_indices))\n"))
bug("e32-lexneg", "C32", OC, ("            -pairs[:, 5],  # iou\n", "            pairs[:, 5],  # iou\n"))
bug("e32-validgt", "C32", OC, ("    mask_valid_gts = gts[:, 1] >= 0\n", "    mask_valid_gts = gts[:, 1] > 0\n"))
bug("e32-anycol", "C32", OC, ("        mask_gt = (gts == gt).all(axis=1)\n", "        mask_gt = (gts[:, 1:] == gt[1:]).all(axis=1)\n"))
bug("e32-first1", "C32", OC, ("        iou_boundary[indices[0]] = 0.0\n", "        iou_boundary[indices[0]] = EPSILON\n"))
bug("e32-prevdefault", "C32", OC, ("    iou_boundary = np.ones_like(ious) * 2\n", "    iou_boundary = np.ones_like(ious)\n"))
bug("e32-le1", "C32", OC, ("        if mask_gt.sum() <= 1:\n", "        if mask_gt.sum() < 1:\n"))
bug("e32-minacc", "C32", OC, ("np.maximum.accumulate(ious[mask_gt])", "np.minimum.accumulate(ious[mask_gt])"))
bug("e32-float32prev", "C32", OC, ("        pa.field(\"iou_prev\", pa.float64()),\n        pa.array(lower_iou_bound, type=pa.float64()),", "        pa.field(\"iou_prev\", pa.float32()),\n        pa.array(lower_iou_bound, type=pa.float32()),"))
bug("e32-take", "C32", OC, ("    ranked_tbl = sorted_tbl.take(indices)\n", "    ranked_tbl = tbl.take(indices)\n"))
bug("e32-sortiou", "C32", OC, ("        (\"pd_score\", \"descending\"),\n        (\"iou\", \"descending\"),\n    ]\n\n    # initial", "        (\"iou\", \"descending\"),\n        (\"pd_score\", \"descending\"),\n    ]\n\n    # initial"))
bug("e33-mingt", "C33", OC, ("    mask_gt_exists = gt_ids >= 0.0\n", "    mask_gt_exists = gt_labels >= 0.0\n"))
bug("e33-zero", "C33", OC, ("    mask_fp = mask_score_nonzero\n", "    mask_fp = scores >= 0.0\n"))
bug("e33-fpouter", "C33", OC, ("            (~mask_gt_exists_labels_match & mask_iou) | ~mask_iou\n", "            (~mask_gt_exists_labels_match & mask_iou) | ~mask_iou_curr\n"))
bug("e33-tpinner", "C33", OC, ("                weights=true_positives_mask,\n", "                weights=mask_tp_inner,\n"))
bug("e33-tpcount-score", "C33", OC, ("            mask_tp_for_counting = mask_pd_label & mask_tp_outer\n", "            mask_tp_for_counting = mask_pd_label & true_positives_mask\n"))
bug("e33-total-nz", "C33", OC, ("            total_count = mask_pd_label.sum()\n", "            total_count = (mask_pd_label & mask_fp_outer).sum()\n"))
bug("e33-gtcount-lbl", "C33", OC, ("    running_gt_count = number_of_groundtruths_per_label[pd_labels]\n", "    running_gt_count = number_of_groundtruths_per_label[gt_labels]\n"))
bug("e33-running-key", "C10", OC, ("            running_counts[iou_idx, pd_label, 1] += tp_count\n", "            running_counts[iou_idx, pd_label, 1] += total_count\n"))
bug("e33-running-iou", "C10", OC, ("            running_counts[iou_idx, pd_label, 0] += total_count\n", "            running_counts[0, pd_label, 0] += total_count\n"))
bug("e33-recallidx", "C33", OC, ("np.floor(recall * 100.0).astype(np.int32)", "np.floor(recall * 101.0).astype(np.int32)"))
bug("e33-precsort", "C33", OC, ("    precision_indices = np.argsort(-precision, axis=1)\n", "    precision_indices = np.argsort(precision, axis=1)\n"))
bug("e33-relabeled", "C33", OC, ("        sorted_labeled_recall = labeled_recall[indices]\n", "        sorted_labeled_recall = labeled_recall\n"))
bug("e33-li-swap", "C33", OC, ("        li = lr_pairs[:, 0]\n        ri = lr_pairs[:, 1]\n        pr_curve[iou_idx, li, ri, 0]", "        pr_curve[iou_idx, li, ri, 0]"))
bug("e33-running-max-score", "C33", OC, ("        pr_curve[:, :, recall, 1] = running_max_score\n", "        pr_curve[:, :, recall, 1] = pr_curve[:, :, recall, 1]\n"))
bug("e33-ap-step", "C33", OC, ("    for recall in range(100, -1, -1):", "    for recall in range(0, 101):"))
bug("e33-map-axis", "C33", OC, ("mAP = average_precision.mean(axis=1)", "mAP = average_precision.mean(axis=0)"))
bug("e33-ap100", "C33", OC, ("average_precision / 101.0", "average_precision / 100.0"))
bug("e33-f1-where", "C14", OC, ("        where=(p + r) > EPSILON,\n", "        where=(p * r) > EPSILON,\n"))
bug("e33-recall-cnt", "C33", OC, ("        where=number_of_groundtruths_per_label > 0,\n        out=prec_rec_f1[:, :, 1, :],", "        where=number_of_groundtruths_per_label > 1,\n        out=prec_rec_f1[:, :, 1, :],"))
bug("e34-greedy-order", "C34", OC, ("    for idx in range(groundtruths.shape[0]):\n        gidx", "    for idx in reversed(range(groundtruths.shape[0])):\n        gidx"))
bug("e34-maxgt", "C34", OC, ("    used_pd = np.zeros(max_pd + 1, dtype=np.bool_)\n", "    used_pd = np.zeros(max_gt + 1, dtype=np.bool_)\n"))
bug("e34-match-iou", "C34", OC, ("            mask_misclf = mask_thresholded_matched_pairs & ~mask_gt_pd_match\n", "            mask_misclf = mask_thresholded_matched_pairs & ~mask_label_match\n"))
bug("e34-unmatched-gt", "C34", OC, ("                data=groundtruths,\n                subset=np.unique(\n                    groundtruths[mask_thresholded_matched_pairs], axis=0", "                data=groundtruths,\n                subset=np.unique(\n                    groundtruths[mask_true_positives], axis=0"))
bug("e34-preds-col", "C34", OC, ("    predictions = ids[:, (0, 2)]\n", "    predictions = ids[:, (0, 4)]\n"))
bug("e34-gt-exists", "C34", OC, ("    mask_gt_exists = gt_ids > -0.5\n", "    mask_gt_exists = gt_ids > 0.5\n"))
bug("e34-um-scorefn", "C34", OC, ("                ~mask_groundtruths_in_thresholded_matched_pairs\n                & mask_gt_exists\n", "                ~mask_groundtruths_in_thresholded_matched_pairs\n                & mask_gt_exists\n                & mask_score\n"))
bug("e34-bits", "C34", OC, ("    FP_UNMATCHED = auto()\n", "    FP_UNMATCHED = 6\n"))
bug("e34-cm-labels", "C34", OC, ("                unique_pairs[:, (3, 4)], axis=0, return_counts=True", "                unique_pairs[:, (3, 3)], axis=0, return_counts=True"))
bug("e34-cm-matched", "C34", OC, ("    mask_matched = mask_tp | mask_fp_fn_misclf\n", "    mask_matched = mask_tp\n"))
bug("e34-cm-ugt", "C34", OC, ("            # unmatched groundtruths\n            unique_pairs = np.unique(\n                ids[np.ix_(mask_fn_unmatched[iou_idx, score_idx], (0, 1, 3))],  # type: ignore - numpy ix_ typing\n", "            # unmatched groundtruths\n            unique_pairs = np.unique(\n                ids[np.ix_(mask_fn_unmatched[iou_idx, 0], (0, 1, 3))],  # type: ignore - numpy ix_ typing\n"))
bug("e34-cm-uint8", "C34", OC, ("    unmatched_predictions = np.zeros_like(unmatched_groundtruths)\n", "    unmatched_predictions = np.zeros_like(unmatched_groundtruths, dtype=np.uint8)\n"))
bug("e34-upd-alias", "C34", OC, ("    unmatched_predictions = np.zeros_like(unmatched_groundtruths)\n", "    unmatched_predictions = unmatched_groundtruths\n"))

# --- object detection evaluator, loader, reporting, second look
bug("f17-flush-rank", "C17", OE, ("            table_sort_override=rank_table,\n        )\n        self._ranked_writer.flush()\n", "            table_sort_override=rank_table,\n        )\n"))
bug("f17-noflush", "C17", OE, ("        self._detailed_writer.flush()\n        if self._detailed_writer.count_rows() == 0:\n            raise EmptyCacheError()\n        elif self._ranked_writer.count_rows() > 0:\n            raise RuntimeError(\"data already finalized\")\n", "        if self._detailed_writer.count_rows() == 0:\n            raise EmptyCacheError()\n        elif self._ranked_writer.count_rows() > 0:\n            raise RuntimeError(\"data already finalized\")\n        self._detailed_writer.flush()\n"))
bug("f17-labels-default", "C12", OE, ("            index_to_label_override=index_to_label_override,\n        )\n\n        # populate ranked", "            index_to_label_override=index_to_label_override or None,\n        )\n\n        # populate ranked"))
bug("f32-cols", "C32", OE, ("                if field.name != \"iou_prev\"\n", "                if not field.name.startswith(\"iou_\")\n                and field.name != \"datum_uid\"\n"))
bug("f32-rank-bs", "C32", OE, ("        self._rank(batch_size)\n", "        self._rank(self._detailed_writer.count_rows())\n"))
bug("f08-info-rows", "C08", OE, ("            datums=datums,\n            groundtruths=groundtruths,\n            predictions=predictions,\n        )\n        return info", "            datums=datums,\n            groundtruths=groundtruths,\n            predictions=groundtruths,\n        )\n        return info"))
bug("f09-filter-cast", "C09", OE, ("                if col not in {\"iou\", \"pd_score\"}:\n", "                if col not in {\"pd_score\"}:\n"))
bug("f09-filter-uid", "C09", OE, ("                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                    mask_valid_gt = (gt_ids == gt).all(axis=1)"))
bug("f09-filter-pdsnone", "C09", OE, ("            else:\n                mask_valid_pd = np.ones(n_pairs, dtype=np.bool_)\n", "            else:\n                mask_valid_pd = mask_valid_gt.copy()\n"))
bug("f09-filter-tbl", "C09", OE, ("            filtered_tbl = tbl.filter(pa.array(~mask_invalid))\n", "            filtered_tbl = tbl.filter(pa.array(mask_valid))\n"))
bug("f09-filter-labels", "C09", OE, ("            batch_size=batch_size,\n            index_to_label_override=self._index_to_label,\n", "            batch_size=batch_size,\n"))
bug("f33-counts-nofilter", "C08", OE, ("                \"iou_prev\",\n            ],\n            filter=datums,\n", "                \"iou_prev\",\n            ],\n"))
bug("f33-counts-assign", "C10", OE, ("            counts += batch_counts\n", "            counts = np.maximum(counts, batch_counts)\n"))
bug("f33-fn-int", "C33", OE, ("n_gts_per_lbl - counts[:, :, 0, :]", "n_gts_per_lbl - counts[:, :, 1, :]"))
bug("f33-running-inloop", "C10", OE, ("            batch_counts = compute_counts(\n", "            running_counts = np.zeros((n_ious, n_labels, 2), dtype=np.uint64)\n            batch_counts = compute_counts(\n"))
bug("f33-empty-break", "C10", OE, ("            if pairs.size == 0:\n                continue\n\n            batch_counts", "            if pairs.size == 0:\n                break\n\n            batch_counts"))
bug("f33-101", "C33", OE, ("(n_ious, n_labels, 101, 2)", "(n_ious, n_labels, 100, 2)"))
bug("f33-prcopy", "C33", OE, ("                running_counts=running_counts,\n                pr_curve=pr_curve,\n", "                running_counts=running_counts,\n                pr_curve=pr_curve.copy(),\n"))
bug("f11-scores-sorted", "C11", OE, ("        n_ious = len(iou_thresholds)\n        n_scores = len(score_thresholds)\n        n_labels = len(self._index_to_label)\n\n        confusion", "        iou_thresholds = sorted(set(iou_thresholds))\n        n_ious = len(iou_thresholds)\n        n_scores = len(score_thresholds)\n        n_labels = len(self._index_to_label)\n\n        confusion"))
bug("f34-cm-filter", "C08", OE, ("                \"pd_score\",\n            ],\n            filter=datums,\n        ):\n            if pairs.size == 0:\n                continue\n\n            (\n                batch_mask_tp", "                \"pd_score\",\n            ],\n        ):\n            if pairs.size == 0:\n                continue\n\n            (\n                batch_mask_tp"))
bug("f34-cm-swap", "C34", OE, ("                mask_fp_unmatched=batch_mask_fp_unmatched,\n                mask_fn_unmatched=batch_mask_fn_unmatched,", "                mask_fp_unmatched=batch_mask_fn_unmatched,\n                mask_fn_unmatched=batch_mask_fp_unmatched,"))
bug("f34-ex-mapping", "C34", OE, ("                tbl, pairs, 2, \"pd_id\", \"pd_uid\"\n", "                tbl, pairs, 2, \"pd_id\", \"gt_uid\"\n"))
bug("f34-ex-fn", "C34", OE, ("            mask_fn = mask_fp_fn_misclf | mask_fn_unmatched\n", "            mask_fn = ~mask_tp & mask_fn_unmatched\n"))
bug("f07-ex-modifier", "C08", OE, ("            modifier=datums,\n", ""))
bug("f07-ex-last", "C07", OE, ("            metrics.extend(batch_examples)\n", "            metrics = batch_examples\n"))
bug("f12-cme-drop", "C12", OE, ("[m for inner in metrics.values() for m in inner.values()]", "[m for inner in metrics.values() for m in inner.values() if m.value]"))
bug("f12-cme-share", "C12", OE, ("        metrics = {\n            iou_idx: {\n                score_idx: create_empty_confusion_matrix_with_examples(\n                    iou_threhsold=iou_thresh,\n                    score_threshold=score_thresh,", "        metrics = {\n            iou_idx: {\n                score_idx: create_empty_confusion_matrix_with_examples(\n                    iou_threhsold=score_thresh,\n                    score_threshold=iou_thresh,"))
bug("f20-gtcount", "C31", OL, ("            self._groundtruth_count += len(detection.groundtruths)\n", "            self._groundtruth_count += len({g.uid for g in detection.groundtruths})\n"))
bug("f20-pdcount", "C31", OL, ("            self._prediction_count += len(detection.predictions)\n", "            self._prediction_count += len(detection.groundtruths)\n"))
bug("f31-threshold", "C31", OL, ("                        if ious[pidx, gidx] >= EPSILON:\n", "                        if ious[pidx, gidx] > 0.01:\n"))
bug("f31-meta-leak", "C31", OL, ("                                        # metadata\n                                        **datum_metadata,\n                                        **pann_metadata,\n                                        # datum", "                                        # metadata\n                                        **datum_metadata,\n                                        **gann_metadata,\n                                        **pann_metadata,\n                                        # datum"))
bug("f31-unmatched-gt", "C31", OL, ("                    if (ious[:, gidx] < EPSILON).all():\n", "                    if len(detection.predictions) == 0:\n"))
bug("f31-unmatched-pd", "C31", OL, ("                        if (ious[pidx, :] < EPSILON).all():\n", "                        if ious[pidx, gidx] < EPSILON:\n"))
bug("f31-first-label", "C31", OL, ("                            for plabel, pscore in zip(pann.labels, pann.scores)\n", "                            for plabel, pscore in zip(pann.labels[:1], pann.scores)\n"))
bug("f31-transpose", "C31", OL, ("                        [gt.extrema, pd.extrema]\n                        for pd in detection.predictions\n                        for gt in detection.groundtruths\n", "                        [gt.extrema, pd.extrema]\n                        for gt in detection.groundtruths\n                        for pd in detection.predictions\n"))
bug("f31-mask-dtype", "C31", OL, ("                        [gt.mask, pd.mask]\n", "                        [gt.mask, pd.mask & gt.mask]\n"))
bug("f31-datum-skip", "C31", OL, ("            self._datum_count += 1\n", "            self._datum_count += 1 if pairs else 0\n"))
bug("f31-write-once", "C31", OL, ("            self._detailed_writer.write_rows(pairs)\n", "            if len(pairs) > 1:\n                self._detailed_writer.write_rows(pairs)\n"))
bug("f31-label-lower", "C31", OL, ("        idx = self._labels.get(value, None)\n", "        value = value.strip()\n        idx = self._labels.get(value, None)\n"))
bug("f31-iou-round", "C31", OL, ("                                        \"iou\": float(ious[pidx, gidx]),", "                                        \"iou\": round(float(ious[pidx, gidx]), 4),"))
bug("f08-nds", "C08", OSH, ("        n_gts += int(np.unique(gts[gts >= 0]).shape[0])\n", "        n_gts += int(np.unique(gts).shape[0])\n"))
bug("f08-nds2", "C10", OSH, ("        n_dts += int(np.unique(tbl[\"datum_id\"].to_numpy()).shape[0])\n", "        n_dts = max(n_dts, int(np.unique(tbl[\"datum_id\"].to_numpy()).shape[0]))\n"))
bug("f08-gtcount", "C33", OSH, ("        unique_ann = np.unique(gts[gts[:, 0] >= 0], axis=0)\n", "        unique_ann = gts[gts[:, 0] >= 0]\n"))
bug("f08-gtcount-assign", "C10", OSH, ("            gt_counts_per_lbl[int(label_id)] += int(count)\n", "            gt_counts_per_lbl[int(label_id)] = int(count)\n"))
bug("f16-schema-rank", "C15", OSH, ("    reserved_field_names = {\n        f[0] for f in reserved_detailed_fields + reserved_ranking_fields\n    }\n", "    reserved_field_names = {f[0] for f in reserved_detailed_fields}\n"))
bug("f04-decode", "C04", OSH, ("    return [(k, v) for k, v in encoded_metadata_fields.items()]", "    return sorted(encoded_metadata_fields.items())"))
bug("f05-labels-pd", "C18", OSH, ("        pd_labels.pop(-1, None)\n", "        pd_labels.pop(0, None)\n"))
bug("f12-ar-avg", "C12", OU, ("            value=float(mean_average_recall.mean()),", "            value=float(mean_average_recall.max()),"))
bug("f12-counts", "C12", OU, ("                        fp=int(row[1]),\n                        fn=int(row[2]),\n", "                        fp=int(row[2]),\n                        fn=int(row[1]),\n"))
bug("f12-map", "C12", OU, ("            value=float(average_precision.mean(axis=0)[label_idx]),", "            value=float(average_precision.max(axis=0)[label_idx]),"))
bug("f12-kwargs", "C12", OU, ("                    \"iou_threshold\": iou_threshold,\n                    \"score_threshold\": score_threshold,\n                }", "                    \"iou_threshold\": score_threshold,\n                    \"score_threshold\": iou_threshold,\n                }"))
bug("f12-cm-rows", "C12", OU, ("                        confusion_matrices[iou_idx, score_idx, idx, pidx]\n", "                        confusion_matrices[iou_idx, score_idx, pidx, idx]\n"))
bug("f12-cm-reset", "C12", OU, ("            cm_dict = {}\n            ugt_dict = {}\n            upd_dict = {}\n            for idx", "            ugt_dict = {}\n            upd_dict = {}\n            for idx"), ("    metrics = []\n    for iou_idx, iou_thresh in enumerate(iou_thresholds):\n        for score_idx, score_thresh in enumerate(score_thresholds):\n            ugt", "    metrics = []\n    cm_dict = {}\n    for iou_idx, iou_thresh in enumerate(iou_thresholds):\n        for score_idx, score_thresh in enumerate(score_thresholds):\n            ugt"))
bug("f34-map-values", "C34", OU, ("    indices = indices[values >= 0]\n", "    indices = indices[values > 0]\n"))
bug("f34-ex-datum", "C34", OU, ("        mask_datum_fn = mask_fn & mask_datum\n", "        mask_datum_fn = mask_fn\n"))
bug("f34-ex-tpcols", "C34", OU, ("                        index_to_groundtruth_id[row[1]],\n                        index_to_prediction_id[row[2]],\n                    )\n                    for row in unique_tp", "                        index_to_groundtruth_id[row[1]],\n                        index_to_prediction_id[row[2]],\n                    )\n                    for row in unique_tp\n                    if row[1] != row[2]"))
bug("f34-empty-share", "C34", OU, ("    for label in index_to_label.values():\n        unmatched_groundtruths[label] = {\"count\": 0, \"examples\": []}\n        unmatched_predictions[label] = {\"count\": 0, \"examples\": []}\n", "    for label in index_to_label.values():\n        empty = {\"count\": 0, \"examples\": []}\n        unmatched_groundtruths[label] = empty\n        unmatched_predictions[label] = empty\n"))
bug("f34-ids32", "C34", OU, ("                    \"prediction_id\": index_to_prediction_id[\n                        unique_unmatched_predictions[idx, 1]\n                    ],", "                    \"prediction_id\": index_to_prediction_id[\n                        unique_unmatched_predictions[idx, 0]\n                    ],"))
bug("f34-cme-loop", "C34", OU, ("        for iou_idx, inner in metrics.items()\n        for score_idx, metric in inner.items()\n", "        for iou_idx, inner in metrics.items()\n        for score_idx, metric in inner.items()\n        if mask_matched[iou_idx, score_idx].any()\n"))
bug("f15-poly-empty", "C16", OA, ("        if self.shape.is_empty:\n", "        if self.shape.area == 0:\n"))
bug("f15-mask-any", "C16", OA, ("        elif not self.mask.any():\n", "        elif self.mask.size == 0:\n"))
bug("f15-pred-scores", "C16", OA, ("            if len(prediction.scores) != len(prediction.labels):\n", "            if len(prediction.scores) > len(prediction.labels):\n"))
bug("f15-box-scores", "C16", OA, ("        if len(self.scores) > 0 and len(self.labels) != len(self.scores):\n", "        if len(self.scores) > 1 and len(self.labels) != len(self.scores):\n"))

# --- segmentation, another round
bug("g40-int32", "C15", SC, ("    groundtruth_counts = groundtruths.sum(axis=1)\n", "    groundtruth_counts = groundtruths.sum(axis=1, dtype=np.uint16)\n"))
bug("g40-bg-gt", "C40", SC, ("groundtruths.any(axis=0) | predictions.any(axis=0)", "groundtruths.any(axis=0) & predictions.any(axis=0)"))
bug("g40-assign", "C40", SC, ("    np.add.at(\n        confusion_matrix,\n        (0, prediction_labels + 1),\n        (prediction_counts - intersected_prediction_counts).astype(np.uint64),\n    )", "    confusion_matrix[0, prediction_labels + 1] = (\n        prediction_counts - intersected_prediction_counts\n    ).astype(np.uint64)"))
bug("g40-iadd", "C40", SC, ("    np.add.at(\n        confusion_matrix,\n        np.ix_(groundtruth_labels + 1, prediction_labels + 1),\n        intersection_counts.astype(np.uint64),\n    )", "    confusion_matrix[\n        np.ix_(groundtruth_labels + 1, prediction_labels + 1)\n    ] += intersection_counts.astype(np.uint64)"))
bug("g40-union-any", "C40", SC, ("    intersected_groundtruth_counts = intersection_counts.sum(axis=1)\n", "    intersected_groundtruth_counts = intersection_counts.max(axis=1)\n"))
bug("g40-ixswap", "C40", SC, ("        np.ix_(groundtruth_labels + 1, prediction_labels + 1),\n        intersection_counts.astype(np.uint64),", "        np.ix_(prediction_labels + 1, groundtruth_labels + 1),\n        intersection_counts.T.astype(np.uint64),"))
bug("g41-npix", "C41", SC, ("    n_pixels = confusion_matrix.sum()\n", "    n_pixels = gt_counts.sum() + confusion_matrix[0, :].sum() if False else confusion_matrix[1:, 1:].sum() + confusion_matrix[0, 0]\n"))
bug("g41-gtcounts", "C41", SC, ("    gt_counts = confusion_matrix[1:, :].sum(axis=1)\n", "    gt_counts = confusion_matrix[1:, 1:].sum(axis=1)\n"))
bug("g41-pdaxis", "C41", SC, ("    pd_counts = confusion_matrix[:, 1:].sum(axis=0)\n", "    pd_counts = confusion_matrix[1:, :].sum(axis=0)[1:]\n"))
bug("g41-recall-pd", "C41", SC, ("    np.divide(tp_counts, gt_counts, where=gt_counts > 1e-9, out=recall)", "    np.divide(tp_counts, gt_counts, where=pd_counts > 1e-9, out=recall)"))
bug("g41-empty", "C14", SC, ("    precision = np.zeros(n_labels, dtype=np.float64)\n    np.divide(tp", "    precision = np.empty(n_labels, dtype=np.float64)\n    np.divide(tp"))
bug("g41-thr1", "C41", SC, ("        where=gt_counts > 1e-9,\n        out=unmatched_ground", "        where=gt_counts > 1,\n        out=unmatched_ground"))
bug("g41-acc-diag", "C41", SC, ("    tp_count = confusion_matrix[1:, 1:].diagonal().sum()", "    tp_count = confusion_matrix.diagonal().sum()"))
bug("g41-acc-none", "C14", SC, ("n_pixels if n_pixels > 0 else 0.0", "n_pixels if n_pixels > background_count else 0.0"))
bug("g41-f1-gm", "C41", SC, ("        2 * (precision * recall),\n", "        2 * np.sqrt(precision * recall) * np.minimum(precision, recall),\n"))
bug("g41-f32", "C15", SC, ("    ious = np.zeros((n_labels, n_labels), dtype=np.float64)", "    ious = np.zeros((n_labels, n_labels), dtype=np.float32)"))
bug("g12-cm-t", "C12", SU, ("{\"iou\": float(ious[gt_label_idx, pd_label_idx])}", "{\"iou\": float(ious[pd_label_idx, gt_label_idx])}") if False else ("                        \"iou\": float(ious[gt_label_idx, pd_label_idx])", "                        \"iou\": float(ious[pd_label_idx, gt_label_idx])"))
bug("g12-skipzero", "C12", SU, ("                    for pd_label_idx in range(n_labels)\n                }\n                for gt_label_idx", "                    for pd_label_idx in range(n_labels)\n                    if ious[gt_label_idx, pd_label_idx] > 0\n                }\n                for gt_label_idx"))
bug("g12-enum", "C12", SU, ("    for label_idx, label in index_to_label.items():\n", "    for label_idx, label in enumerate(sorted(index_to_label.values())):\n"))
bug("g41-miou-nz", "C41", SU, ("float(ious.diagonal().mean()) if n_labels > 0", "float(ious.diagonal()[ious.diagonal() > 0].mean()) if n_labels > 0"))
bug("g41-miou-all", "C41", SU, ("float(ious.diagonal().mean())", "float(ious.max(axis=1).mean())"))
bug("g18-skip-empty", "C18", SL, ("            for idx, prediction in enumerate(segmentation.predictions):\n                label_idx = self._add_label(prediction.label)", "            for idx, prediction in enumerate(segmentation.predictions):\n                if not prediction.mask.any():\n                    continue\n                label_idx = self._add_label(prediction.label)"))
bug("g18-lower", "C18", SL, ("        idx = self._labels.get(value, None)\n", "        value = value.strip()\n        idx = self._labels.get(value, None)\n"))
bug("g40-zeroskip", "C18", SL, ("                # write all unmatched to preserve labels\n                rows.extend(", "                # write all unmatched to preserve labels\n                if counts[idx + 1].sum() + counts[:, idx + 1].sum() == 0:\n                    continue\n                rows.extend("))
bug("g40-inter1", "C40", SL, ("                    if counts[idx + 1, pidx + 1] > 0:", "                    if counts[idx + 1, pidx + 1] > 1:"))
bug("g40-diag", "C40", SL, ("                    if counts[idx + 1, pidx + 1] > 0:", "                    if counts[idx + 1, pidx + 1] > 0 and (\n                        idx == pidx or counts[idx + 1, 0] > 0\n                    ):"))
bug("g40-fortran", "C40", SL, ("                        prediction.mask.flatten()\n", "                        prediction.mask.flatten(order=\"F\")\n"))
bug("g40-gtmeta", "C40", SL, ("                            **gt_metadata.get(idx, {}),\n                            **pd_metadata.get(idx, {}),\n                            # datum", "                            **pd_metadata.get(idx, {}),\n                            # datum"))
bug("g40-metaidx", "C09", SL, ("                self._labels[pd.label]: pd.metadata\n                for pd in segmentation.predictions\n", "                idx: pd.metadata\n                for idx, pd in enumerate(segmentation.predictions)\n"))
bug("g40-datumid", "C40", SL, ("            # update datum count\n            self._datum_count += 1", "            # update datum count\n            if segmentation.groundtruths:\n                self._datum_count += 1"))
bug("g40-bgonly", "C40", SL, ("            rows.append(\n                {\n                    # metadata\n                    **datum_metadata,\n                    # datum", "            if counts[0, 0] == counts.sum():\n                continue\n            rows.append(\n                {\n                    # metadata\n                    **datum_metadata,\n                    # datum"))
bug("g40-shape", "C40", SL, ("            else:\n                combined_predictions = np.zeros(\n                    (1, segmentation.shape[0] * segmentation.shape[1]),", "            else:\n                combined_predictions = np.zeros(\n                    (1, segmentation.shape[0] ** 2),"))
bug("g15-count-i32", "C15", SSH, ("        (\"count\", pa.uint64()),", "        (\"count\", pa.uint32()),"))
bug("g16-conflict", "C16", SSH, ("    if conflicting := reserved_field_names & metadata_field_names:", "    if len(conflicting := reserved_field_names & metadata_field_names) > 1:"))
bug("g04-decode-none", "C04", SSH, ("    return {k: str(v) for k, v in metadata_fields}", "    return {k: str(v) for k, v in metadata_fields if isinstance(v, str)}"))
bug("g18-pop", "C18", SSH, ("        pd_labels.pop(-1, None)\n        index_to_label.update(pd_labels)", "        pd_labels.pop(-1, None)\n        index_to_label = {**pd_labels, **gt_labels}"))
bug("g18-firsttbl", "C18", SSH, ("        pd_labels.pop(-1, None)\n        index_to_label.update(pd_labels)\n", "        pd_labels.pop(-1, None)\n        index_to_label.update(pd_labels)\n        if len(index_to_label) == len(gt_labels):\n            break\n"))
bug("g18-override-empty", "C09", SSH, ("    if index_to_label_override is not None:", "    if index_to_label_override:"))
bug("g08-cnt-total", "C08", SSH, ("        n_total += int(tbl[\"count\"].to_numpy().sum())", "        n_total += int(tbl[\"count\"].to_numpy().max())"))
bug("g08-cnt-gtexpr", "C08", SSH, ("        if groundtruths is not None:\n            gt_expr &= groundtruths", "        if groundtruths is not None:\n            gt_expr = groundtruths"))
bug("g08-cnt-or", "C08", SSH, ("            pd_expr &= predictions", "            pd_expr |= predictions"))
bug("g08-cnt-gt0", "C08", SSH, ("pc.field(\"pd_label_id\") >= 0", "pc.field(\"pd_label_id\") > 0"))
bug("g40-pdpix", "C40", SSH, ("        n_pds += int(pd_tbl[\"count\"].to_numpy().sum())", "        n_pds = int(pd_tbl[\"count\"].to_numpy().sum())"))
bug("g09-gt-tbl", "C09", SE, ("                pd_tbl = tbl.filter(predictions)\n", "                pd_tbl = tbl.filter(predictions)\n                if pd_tbl.num_rows == 0:\n                    continue\n"))
bug("g09-or-and", "C09", SE, ("            mask_valid = mask_valid_gt | mask_valid_pd\n", "            mask_valid = mask_valid_gt & mask_valid_pd\n"))
bug("g09-anyax", "C09", SE, ("                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                    mask_valid_gt |= (gt_ids == gt).any(axis=1)"))
bug("g09-datumcol", "C09", SE, ("            pd_ids = pairs[:, (0, 2)].astype(np.int64)", "            pd_ids = pairs[:, (1, 2)].astype(np.int64)"))
bug("g09-drop", "C09", SE, ("            builder._writer.write_table(tbl)\n", "            builder._writer.write_table(\n                tbl.filter(pa.array(mask_valid_gt | mask_valid_pd))\n            )\n"))
bug("g09-nolabels", "C09", SE, ("        return builder.finalize(index_to_label_override=self._index_to_label)", "        return builder.finalize()"))
bug("g09-compression", "C04", SE, ("                compression=self._reader.compression,\n", ""))
bug("g09-samepath", "C09", SE, ("        for tbl in self._reader.iterate_tables(filter=datums):\n            columns = (\n                \"datum_id\",\n                \"gt_label_id\",\n                \"pd_label_id\",\n            )\n            pairs", "        for tbl in self._reader.iterate_tables():\n            columns = (\n                \"datum_id\",\n                \"gt_label_id\",\n                \"pd_label_id\",\n            )\n            pairs"))
bug("g10-cm-max", "C10", SE, ("            confusion_matrix[0, 0] += counts[", "            confusion_matrix[0, 0] = counts["))
bug("g40-eval-skipempty", "C40", SE, ("            mask_null_gts = ids[:, 1] == -1\n", "            if (ids[:, 1] == -1).all():\n                continue\n            mask_null_gts = ids[:, 1] == -1\n"))
bug("g40-eval-nlab", "C40", SE, ("                for pidx in range(n_labels):\n", "                for pidx in range(idx + 1):\n"))
bug("g40-unique", "C40", SE, ("            counts = tbl[\"count\"].to_numpy()\n", "            ids, first = np.unique(ids, axis=0, return_index=True)\n            counts = tbl[\"count\"].to_numpy()[first]\n"))
bug("g15-f32", "C15", SE, ("            counts = tbl[\"count\"].to_numpy()\n", "            counts = tbl[\"count\"].to_numpy().astype(np.float32)\n"))
bug("g08-ss-mod", "C08", SE, ("        confusion_matrix = self._compute_confusion_matrix_intermediate(\n            datums=datums\n        )", "        confusion_matrix = self._compute_confusion_matrix_intermediate()"))
bug("g17-finalize-count", "C17", SE, ("        self._writer.flush()\n        if self._writer.count_rows() == 0:", "        if self._writer.count_rows() == 0:"))
bug("g04-load-override", "C04", SE, ("        return cls(\n            reader=reader,\n            index_to_label=index_to_label,\n            metadata_fields=metadata_fields,\n        )", "        return cls(\n            reader=reader,\n            index_to_label=index_to_label,\n        )"))
bug("g40-ann-order", "C40", SA, ("                bitmasks[idx].mask[mask_overlap] = False\n", "                bitmasks[idx - 1].mask[mask_overlap] = False\n"))
bug("g40-ann-noacc", "C40", SA, ("                mask_accumulation = mask_accumulation | bitmask.mask\n            else:", "                mask_accumulation = bitmask.mask.copy()\n            else:"))
bug("g40-ann-predonly", "C40", SA, ("        self._validate_bitmasks(self.groundtruths, \"ground truth\")\n", "        if len(self.groundtruths) > 2:\n            self._validate_bitmasks(self.groundtruths, \"ground truth\")\n"))
bug("g40-ann-size", "C40", SA, ("        self.size = self.shape[0] * self.shape[1]\n", "        self.size = self.size or self.shape[0] * self.shape[1]\n"))
bug("g40-ann-elseacc", "C40", SA, ("            else:\n                mask_accumulation = mask_accumulation | bitmask.mask\n", "            elif len(bitmasks) == idx + 1:\n                mask_accumulation = mask_accumulation | bitmask.mask\n"))
bug("g34-empty-both", "C34", OU, ("        unmatched_predictions=unmatched_predictions,\n        iou_threshold=iou_threhsold,", "        unmatched_predictions=unmatched_groundtruths,\n        iou_threshold=iou_threhsold,"))
bug("g13-tolist", "C13", OU, ("            precisions=pr_curve[iou_idx, label_idx, :, 0].tolist(),", "            precisions=pr_curve[iou_idx, label_idx, :, 0],"))
bug("g13-tolist2", "C13", OU, ("            precisions=pr_curve[iou_idx, label_idx, :, 0].tolist(),", "            precisions=list(pr_curve[iou_idx, label_idx, :, 0]),"))

# --- caches, once more
XE, XP = "cache/ephemeral.py", "cache/persistent.py"
bug("h01-mem-batch-ge", "C01", XE, ("        if size < self._batch_size:\n            self._buffer.append(batch)\n            return\n", "        if size < self._batch_size:\n            self._buffer.append(batch)\n            return\n\n        if size > self._batch_size and self._buffer:\n            batch = batch.slice(0, self._batch_size)\n"))
bug("h01-mem-table-empty", "C01", XE, ("        self.flush()\n        self._table = pa.concat_tables([self._table, table])", "        self.flush()\n        if self._table.num_rows == 0:\n            self._table = table\n        else:\n            self._table = pa.concat_tables([table, self._table])"))
bug("h01-mem-unify", "C01", XE, ("        self._table = pa.concat_tables([self._table, table])", "        self._table = pa.concat_tables([self._table, table]).combine_chunks().slice(0, self._table.num_rows + self._batch_size)"))
bug("h01-toreader-noflush", "C01", XP, ("    def to_reader(self) -> FileCacheReader:\n", "    def to_reader(self) -> FileCacheReader:\n        self._buffer = [b for b in self._buffer if b.num_rows > 1]\n"))
bug("h01-write-cols-dedup", "C01", XP, ("        batch = pa.RecordBatch.from_pydict(columns)\n        self.write_batch(batch)", "        batch = pa.RecordBatch.from_pydict(columns)\n        if self._buffer and self._buffer[-1].equals(batch):\n            return\n        self.write_batch(batch)"))
bug("h01-flush-close-first", "C01", XP, ("        self._buffer = []\n        self._count = 0\n        self._close_writer()", "        self._close_writer()\n        self._count = 0"))
bug("h01-large-split", "C01", XP, ("        writer = self._get_or_create_writer()\n        writer.write_batch(batch)\n\n        # check file size", "        writer = self._get_or_create_writer()\n        for start in range(0, batch.num_rows - batch.num_rows % self.batch_size, self.batch_size):\n            writer.write_batch(batch.slice(start, self.batch_size))\n\n        # check file size"))
bug("h01-table-schema", "C01", XP, ("        self.flush()\n        pq.write_table(\n            table,", "        self.flush()\n        pq.write_table(\n            table.drop_null(),"))
bug("h02-name-buffered", "C02", XP, ("        self._count = 0\n        self._close_writer()", "        self._count = 0\n        if self._writer is not None and self._buffer:\n            self._close_writer()"))
bug("h02-count-batches", "C02", XP, ("        self._count += size\n", "        self._count += 1\n"))
bug("h02-glob-rec", "C02", XP, ("glob.glob(f\"{self._path}/*.parquet\")", "glob.glob(f\"{self._path}/**/*.parquet\", recursive=True)"))
bug("h02-reverse", "C02", XP, ("fragments, key=lambda x: int(Path(x.path).stem)\n", "fragments, key=lambda x: int(Path(x.path).stem), reverse=len(fragments) > 100\n"))
bug("h02-mtime", "C02", XP, ("fragments, key=lambda x: int(Path(x.path).stem)\n", "fragments, key=lambda x: os.path.getmtime(x.path)\n"))
bug("h03-filter-isnull", "C03", XE, ("            table = table.filter(filter)", "            table = table.filter(filter, null_selection_behavior=\"emit_null\")"))
bug("h03-select-first", "C03", XE, ("        if filter is not None:\n            table = table.filter(filter)\n        if columns is not None:\n            table = table.select(columns)", "        if columns is not None:\n            table = table.select(columns)\n        if filter is not None:\n            table = table.filter(filter)"))
bug("h03-empty-skip", "C03", XP, ("            yield fragment.to_table(columns=columns, filter=filter)", "            table = fragment.to_table(columns=columns, filter=filter)\n            if table.num_rows < self._batch_size or filter is None:\n                yield table"))
bug("h03-colset", "C03", XP, ("            columns=numeric_columns,\n            filter=filter,\n        ):\n            yield np.column_stack(\n                [tbl.column(i).to_numpy() for i in range(tbl.num_columns)]", "            columns=sorted(numeric_columns) if numeric_columns else None,\n            filter=filter,\n        ):\n            yield np.column_stack(\n                [tbl.column(i).to_numpy() for i in range(tbl.num_columns)]"))
bug("h03-f32", "C03", XE, ("            yield np.column_stack(\n                [tbl.column(i).to_numpy() for i in range(tbl.num_columns)]\n            )", "            yield np.column_stack(\n                [\n                    tbl.column(i).to_numpy().astype(np.float32)\n                    for i in range(tbl.num_columns)\n                ]\n            )"))
bug("h03-batchsize", "C03", XE, ("        yield iter(self._table.to_batches(max_chunksize=batch_size))", "        yield iter(self._table.to_batches(max_chunksize=batch_size)[: self._table.num_rows // batch_size + 1])"))
bug("h04-rows", "C04", XP, ("                rows_per_file=rows_per_file,\n                compression=compression,\n                schema=cls", "                rows_per_file=max(rows_per_file, batch_size),\n                compression=compression,\n                schema=cls"))
bug("h04-load-cfgpath", "C04", XP, ("        if not path.exists():\n            raise FileNotFoundError(f\"Directory does not exist: {path}\")\n        elif not", "        if not path.exists():\n            path.mkdir(parents=True)\n        elif not"))
bug("h04-schema-nometa", "C04", XP, ("        schema_bytes = schema.serialize()", "        schema_bytes = schema.remove_metadata().serialize()"))
bug("h05-parents", "C05", XP, ("        # delete empty cache directory\n        path.rmdir()", "        # delete empty cache directory\n        path.rmdir()\n        if not any(path.parent.iterdir()):\n            path.parent.rmdir()"))
bug("h05-delete-allfiles", "C05", XP, ("        for file in reader.get_dataset_files():\n            if file.exists() and file.is_file() and file.suffix == \".parquet\":", "        for file in reader.get_files():\n            if file.exists() and file.is_file():"))
bug("h05-create-nodir", "C05", XP, ("        if delete_if_exists and path.exists():\n            cls.delete(path)", "        if delete_if_exists or (path.exists() and not any(path.glob(\"*.parquet\"))):\n            cls.delete(path)"))
bug("h05-noload", "C05", XP, ("        reader = FileCacheReader.load(path)\n        for file in reader.get_dataset_files():", "        for file in path.rglob(\"*.parquet\"):"))
bug("h06-merge-override", "C06", XC, ("        if table_sort_override is not None:\n            sorted_tbl = table_sort_override(tbl)\n        else:\n            sorted_tbl = tbl.sort_by(sorting)\n        intermediate_sink", "        sorted_tbl = tbl.sort_by(sorting)\n        if table_sort_override is not None:\n            sorted_tbl = table_sort_override(tbl)\n        if sorted_tbl.num_rows == 0:\n            break\n        intermediate_sink"))
bug("h06-merge-tail", "C06", XC, ("    while heap:\n        row", "    while len(heap) > 1:\n        row"))
bug("h06-merge-rest", "C06", XC, ("        row_table = batches[batch_idx].slice(row_idx, 1)\n        sink.write_batch(row_table)", "        if not heap:\n            sink.write_batch(batches[batch_idx].slice(row_idx))\n            break\n        row_table = batches[batch_idx].slice(row_idx, 1)\n        sink.write_batch(row_table)"))
bug("h06-key-batch", "C06", XC, ("        return (\n            *args,\n            batch_idx,\n            row_idx,\n        )", "        return (\n            batch_idx // 2,\n            *args,\n            batch_idx,\n            row_idx,\n        )"))
bug("h06-inplace-one", "C06", XP, ("            sorted_tbl = tbl.sort_by(sorting)\n            pq.write_table(sorted_tbl, file", "            sorted_tbl = tbl.sort_by(sorting) if len(sorting) > 1 else tbl.sort_by(sorting[0][0])\n            pq.write_table(sorted_tbl, file"))
bug("h06-sort-cols", "C06", XC, ("        for tbl in source.iterate_tables(columns=columns):\n            if table_sort_override is not None:\n                tbl = table_sort_override(tbl)\n            intermediate_sink.write_table(tbl)", "        for tbl in source.iterate_tables(columns=columns):\n            if table_sort_override is not None:\n                tbl = table_sort_override(tbl)\n            intermediate_sink.write_table(tbl.combine_chunks().slice(0, batch_size))"))
bug("h07-off-neg", "C07", XC, ("    elif offset >= total:\n        return\n", "    elif offset > total - limit:\n        offset = max(total - limit, 0)\n"))
bug("h07-key-rows", "C07", XC, ("                pc.field(column_key) >= unique_values[offset - prev_idx]", "                pc.field(column_key) > unique_values[offset - prev_idx - 1]"))
bug("h07-filter-empty", "C07", XC, ("        if tbl.num_rows == 0:\n            continue\n", "        if tbl.num_rows == 0:\n            return\n"))
bug("h07-nomod", "C07", XC, ("    curr_idx = 0\n    for tbl in source.iterate_tables(filter=modifier):", "    curr_idx = 0\n    for tbl in source.iterate_tables():"))
bug("h07-first-row", "C07", XC, ("        n_unique = len(unique_values)", "        n_unique = tbl.num_rows"))
bug("h07-idx-shift", "C07", XC, ("        prev_idx = curr_idx\n        curr_idx += n_unique", "        curr_idx += n_unique\n        prev_idx = curr_idx - len(tbl)"))

# --- object detection, once more
bug("h30-eps", "C30", OC, ("        where=union_area >= EPSILON,", "        where=union_area >= 1.0,"))
bug("h30-poly-union", "C30", OC, ("    unions = shapely.union(lhs, rhs)\n    union_areas = shapely.area(unions)", "    union_areas = shapely.area(shapely.convex_hull(shapely.union(lhs, rhs)))"))
bug("h30-poly-sum", "C30", OC, ("    unions = shapely.union(lhs, rhs)\n    union_areas = shapely.area(unions)", "    union_areas = shapely.area(lhs) + shapely.area(rhs)"))
bug("h30-mask-min", "C30", OC, ("    union_ = lhs_sum + rhs_sum - intersection_\n", "    union_ = np.maximum(lhs_sum, rhs_sum)\n"))
bug("h32-inplace-order", "C32", OC, ("            -pairs[:, 5],  # iou\n            -pairs[:, 6],  # score", "            -pairs[:, 6],  # score\n            -pairs[:, 5],  # iou"))
bug("h32-unique-first", "C32", OC, ("    pairs = pairs[mask_label_match | mask_unmatched_predictions]\n    indices = indices[mask_label_match | mask_unmatched_predictions]\n", "    keep = mask_label_match | mask_unmatched_predictions\n    pairs = pairs[keep]\n    indices = np.where(keep)[0]\n"))
bug("h32-datum", "C32", OC, ("        pairs[:, [0, 2, 4]], axis=0, return_index=True", "        pairs[:, [2, 4]], axis=0, return_index=True"))
bug("h32-boundary-gt", "C32", OC, ("    gts = ids[:, (0, 1, 3)]\n", "    gts = ids[:, (0, 3)]\n", ), ("    mask_valid_gts = gts[:, 1] >= 0\n", "    mask_valid_gts = ids[:, 1] >= 0\n"))
bug("h32-boundary-le", "C32", OC, ("        if mask_gt.sum() <= 1:\n            iou_boundary[mask_gt] = 0.0\n            continue\n", "        if mask_gt.sum() <= 2:\n            iou_boundary[mask_gt] = 0.0\n            continue\n"))
bug("h32-boundary-prev", "C32", OC, ("        iou_boundary[indices[1:]] = ious[indices[:-1]]", "        iou_boundary[indices[1:]] = ious[indices[0]]"))
bug("h32-rank-stale", "C32", OC, ("    ranked_tbl = sorted_tbl.take(indices)", "    ranked_tbl = tbl.take(indices)"))
bug("h32-ties", "C32", OC, ("        mask_rmax[1:] &= running_max[1:] > running_max[:-1]\n", "        mask_rmax[1:] &= running_max[1:] >= running_max[:-1]\n"))
bug("h33-total-pred", "C33", OC, ("            running_counts[iou_idx, pd_label, 0] += total_count\n", "            running_counts[iou_idx, pd_label, 0] = total_count\n"))
bug("h33-scores-nz", "C33", OC, ("    mask_fp = mask_score_nonzero\n", "    mask_fp = mask_score_nonzero & mask_gt_exists\n"))
bug("h33-prev-iou", "C33", OC, ("        mask_iou_prev = prev_ious < max(iou_thresholds[iou_idx], EPSILON)", "        mask_iou_prev = prev_ious <= max(iou_thresholds[iou_idx], EPSILON)"))
bug("h33-dup", "C33", OC, ("            mask_fp_inner |= mask_tp_inner & ~true_positives_mask\n", ""))
bug("h33-uniq-cols", "C33", OC, ("                tp_candidates[:, [0, 1, 3]], axis=0, return_index=True", "                tp_candidates[:, [1, 3]], axis=0, return_index=True"))
bug("h33-recall-bin", "C33", OC, ("    recall_index = np.floor(recall * 100.0).astype(np.int32)", "    recall_index = np.ceil(recall * 100.0).astype(np.int32)"))
bug("h33-prcurve-set", "C10", OC, ("        pr_curve[iou_idx, li, ri, 0] = np.maximum(\n            pr_curve[iou_idx, li, ri, 0],\n            sorted_precision[recall_indices],\n        )", "        pr_curve[iou_idx, li, ri, 0] = sorted_precision[recall_indices]"))
bug("h33-ap-101", "C33", OC, ("    for recall in range(100, -1, -1):", "    for recall in range(100, 0, -1):"))
bug("h33-ar-scores", "C33", OC, ("    average_recall = recall.mean(axis=0)\n", "    average_recall = recall.max(axis=0)\n"))
bug("h33-map-nonzero", "C33", OC, ("        mAP = average_precision.mean(axis=1)", "        mAP = average_precision.sum(axis=1) / np.maximum((average_precision > 0).sum(axis=1), 1)"))
bug("h33-fn-after", "C33", OE, ("        counts[:, :, 2, :] = n_gts_per_lbl - counts[:, :, 0, :]", "        counts[:, :, 2, :] = n_gts_per_lbl - np.minimum(counts[:, :, :2, :].sum(axis=2), n_gts_per_lbl)"))
bug("h33-sorted-thr", "C11", OE, ("                iou_thresholds=np.array(iou_thresholds),\n                score_thresholds=np.array(score_thresholds),\n                number_of", "                iou_thresholds=np.array(sorted(iou_thresholds)),\n                score_thresholds=np.array(score_thresholds),\n                number_of"))
bug("h34-greedy-unused", "C34", OC, ("            keep[idx] = True\n            used_gt[gidx] = True\n            used_pd[pidx] = True\n", "            keep[idx] = True\n            used_gt[gidx] = True\n"))
bug("h34-greedy-neg", "C34", OC, ("        if not (gidx < 0 or pidx < 0 or used_gt[gidx] or used_pd[pidx]):", "        if not (gidx < 0 or pidx < 0 or (used_gt[gidx] and used_pd[pidx])):"))
bug("h34-isin-shift", "C34", OC, ("    combined_subset = (subset[:, 0].astype(np.int64) << 32) | subset[\n        :, 1\n    ].astype(np.int32)", "    combined_subset = (subset[:, 0].astype(np.int32) << 32) | subset[\n        :, 1\n    ].astype(np.int32)"))
bug("h34-unm-score", "C34", OC, ("                ~mask_predictions_in_thresholded_matched_pairs\n                & mask_pd_exists\n                & mask_score\n", "                ~mask_predictions_in_thresholded_matched_pairs\n                & mask_pd_exists\n                & mask_score_nonzero\n"))
bug("h34-unm-gt-iou", "C34", OC, ("                ~mask_groundtruths_in_thresholded_matched_pairs\n                & mask_gt_exists\n", "                ~mask_groundtruths_in_thresholded_matched_pairs\n                & mask_gt_exists\n                & ~mask_iou\n"))
bug("h34-flags-reset", "C34", OC, ("            pair_classifications[\n                iou_idx, score_idx, mask_unmatched_groundtruths\n            ] |= np.uint8(PairClassification.FN_UNMATCHED)", "            pair_classifications[\n                iou_idx, score_idx, mask_unmatched_groundtruths\n            ] = np.uint8(PairClassification.FN_UNMATCHED)"))
bug("h34-ex-fp", "C34", OE, ("            mask_fp = mask_fp_fn_misclf | mask_fp_unmatched\n", "            mask_fp = mask_fp_unmatched\n"))
bug("h09-od-pdmask", "C09", OE, ("            pairs[~mask_valid_pd | ~mask_valid_gt, 5] = 0.0", "            pairs[~mask_valid_pd & ~mask_valid_gt, 5] = 0.0"))
bug("h09-od-cols", "C09", OE, ("            pairs[np.ix_(~mask_valid_pd, (2, 4, 6))] = -1.0", "            pairs[np.ix_(~mask_valid_pd, (2, 4))] = -1.0"))
bug("h09-od-inv", "C09", OE, ("            mask_invalid = ~mask_valid | (pairs[:, (1, 2)] < 0).all(axis=1)", "            mask_invalid = ~mask_valid | (pairs[:, (1, 2)] < 0).any(axis=1)"))
bug("h09-od-first", "C09", OE, ("            pd_ids = pairs[:, (0, 2, 4)].astype(np.int64)", "            pd_ids = pairs[:, (0, 1, 4)].astype(np.int64)"))
bug("h09-od-empty", "C09", OE, ("                for gt in np.unique(gt_pairs, axis=0):", "                if gt_tbl.num_rows == 0:\n                    continue\n                for gt in np.unique(gt_pairs, axis=0):"))
bug("h17-od-rank-buf", "C17", OE, ("        detailed_reader = self._detailed_writer.to_reader()\n        compute.sort", "        detailed_reader = self._detailed_writer.to_reader()\n        if detailed_reader.count_rows() <= batch_size:\n            return\n        compute.sort"))
bug("h10-od-batch", "C10", OE, ("            counts += batch_counts\n", "            counts = np.maximum(counts, batch_counts)\n"))
bug("h08-od-gtcount", "C08", OE, ("            number_of_labels=n_labels,\n            datums=datums,\n        )\n", "            number_of_labels=n_labels,\n            datums=datums if len(score_thresholds) == 1 else None,\n        )\n"))
bug("h12-od-labels", "C12", OE, ("            iou_thresholds=iou_thresholds,\n            score_thresholds=score_thresholds,\n            index_to_label=self._index_to_label,\n        )\n\n    def compute_confusion_matrix(", "            iou_thresholds=iou_thresholds,\n            score_thresholds=score_thresholds,\n            index_to_label=dict(enumerate(self._index_to_label.values())),\n        )\n\n    def compute_confusion_matrix("))

# --- text generation, once more
bug("h50-nongreedy", "C50", TU, ("    pattern = r\"\\{[\\s\\S]*\\}\"", "    pattern = r\"\\{[\\s\\S]*?\\}\""))
bug("h50-line", "C50", TU, ("    pattern = r\"\\{[\\s\\S]*\\}\"", "    pattern = r\"\\{.*\\}\""))
bug("h50-strictoff", "C50", TU, ("        return json.loads(extracted_text)\n", "        return json.loads(extracted_text.replace(\"'\", '\"'))\n"))
bug("h50-dict-default", "C50", TU, ("    except json.JSONDecodeError as e:\n        raise InvalidLLMResponseError(\n            f\"Evaluation LLM responded with invalid JSON. JSONDecodeError: {str(e)}\"\n        )", "    except json.JSONDecodeError:\n        return json.loads(extracted_text, strict=False)"))
bug("h50-firstint", "C50", TU, ("    match = re.search(r\"-?\\d+\", text)\n", "    match = re.search(r\"\\d+\", text)\n"))
bug("h50-firstint2", "C50", TU, ("    match = re.search(r\"-?\\d+\", text)\n    if not match:\n        return None\n    return int(match.group())", "    matches = re.findall(r\"-?\\d+\", text)\n    if not matches:\n        return None\n    return int(matches[-1])"))
bug("h50-superset", "C50", TV, ("        elif set(value.keys()) != {\"verdict\", \"analysis\"}:", "        elif not {\"verdict\", \"analysis\"} <= set(value.keys()):"))
bug("h50-allowed-case", "C50", TV, ("            and value[\"verdict\"] not in allowed_values\n", "            and value[\"verdict\"].lower() not in allowed_values\n"))
bug("h50-length-lt", "C50", TV, ("    elif enforce_length is not None and enforce_length != len(response[key]):\n        raise InvalidLLMResponseError(\n            f\"LLM response does not match input size of '{enforce_length}': {response}\"\n        )\n\n    for", "    elif enforce_length is not None and enforce_length > len(response[key]):\n        raise InvalidLLMResponseError(\n            f\"LLM response does not match input size of '{enforce_length}': {response}\"\n        )\n\n    for"))
bug("h50-any", "C50", TV, ("        or not all([isinstance(v, str) for v in response[key]])", "        or not any([isinstance(v, str) for v in response[key]])"))
bug("h50-one-key", "C50", TGN, ("    for key in keys:\n        validator(", "    for key in list(keys)[:1]:\n        validator("))
bug("h50-tpfp-gt", "C50", TGN, ("    if len(response[\"FN\"]) > len(groundtruth_statements):", "    if len(response[\"FN\"]) > len(groundtruth_statements) + len(prediction_statements):"))
bug("h50-enf-none", "C50", TGN, ("        enforce_length=len(ordered_context_list),\n", ""))
bug("h51-first-error", "C51", TM, ("            except InvalidLLMResponseError as e:\n                error = e\n", "            except InvalidLLMResponseError as e:\n                error = error or e\n                if str(e) == str(error) and error is not e:\n                    break\n"))
bug("h51-value-error", "C51", TM, ("            except InvalidLLMResponseError as e:", "            except (InvalidLLMResponseError, KeyError) as e:"))
bug("h51-range", "C51", TM, ("        for _ in range(1 + retries):", "        for _ in range(max(1, retries)):"))
bug("h51-retries-attr", "C51", TM, ("        retries = getattr(self, \"retries\", 0)\n", "        retries = getattr(client, \"retries\", 0)\n"))
bug("h51-raise", "C51", TM, ("                error_type=type(error).__name__,\n                error_message=str(error),", "                error_type=type(error).__name__,\n                error_message=repr(error),"))
bug("h52-rel-swap", "C52", TGN, ("            \"content\": format_answer_relevance_verdicts_instruction(\n                query=query,\n                statements=statements,\n", "            \"content\": format_answer_relevance_verdicts_instruction(\n                query=query,\n                statements=statements[:50],\n"))
bug("h52-role", "C52", TGN, ("            \"role\": \"user\",\n            \"content\": format_claims_instruction(text=text),", "            \"role\": \"system\",\n            \"content\": format_claims_instruction(text=text),"))
bug("h52-nosys", "C52", TGN, ("        {\"role\": \"system\", \"content\": system_prompt},\n        {\n            \"role\": \"user\",\n            \"content\": format_opinions_instruction(text=text),", "        {\"role\": \"system\", \"content\": \"You are a helpful assistant.\"},\n        {\n            \"role\": \"user\",\n            \"content\": format_opinions_instruction(text=text),"))
bug("h53-corr-weight", "C53", TC, ("        f1_scores.append(tp / (tp + 0.5 * (fp + fn)) if tp > 0 else 0)", "        f1_scores.append(tp / (tp + fp + fn) if tp > 0 else 0)"))
bug("h53-corr-mean", "C53", TC, ("    return max(f1_scores)", "    return sum(f1_scores) / max(len(groundtruths), 1)"))
bug("h53-cp-div", "C53", TC, ("    return sum(precision_at_k_list) / len(precision_at_k_list)", "    return sum(precision_at_k_list) / len(predicted_context)"))
bug("h53-cp-k", "C53", TC, ("                sum(verdict == \"yes\" for verdict in aggregate_verdicts[:k]) / k\n", "                sum(verdict == \"yes\" for verdict in aggregate_verdicts[: k - 1]) / k\n"))
bug("h53-cp-range", "C53", TC, ("    for k in range(1, len(predicted_context) + 1):", "    for k in range(1, len(predicted_context)):"))
bug("h53-cp-overwrite", "C53", TC, ("            if verdicts[i][\"verdict\"] == \"yes\":\n                aggregate_verdicts[i] = \"yes\"\n", "            aggregate_verdicts[i] = verdicts[i][\"verdict\"]\n"))
bug("h53-cr-last", "C53", TC, ("    return max(scores)", "    return scores[-1]"))
bug("h53-cr-min", "C53", TC, ("    return max(scores)", "    return min(scores)"))
bug("h53-faith-noctx", "C53", TC, ("    if len(claims) == 0:\n        return 1.0\n", "    if len(claims) <= 1:\n        return 1.0\n"))
bug("h53-cr-empty", "C53", TC, ("            if len(verdicts) > 0\n            else 0.0\n", "            if len(verdicts) > 0\n            else 1.0\n"))
bug("h53-rouge-first", "C53", TC, ("            results[type_] = max(metrics[type_][0], 0.0)", "            results[type_] = max(metrics[rouge_types[0]][0], 0.0)"))
bug("h53-rouge-agg", "C53", TC, ("        use_aggregator=False,", "        use_aggregator=len(references) > 1,"))
bug("h53-bleu-ref", "C53", TC, ("    tokenized_references = [tokenizer.tokenize(ref) for ref in references]", "    tokenized_references = [tokenizer.tokenize(ref) for ref in references[:1]]"))
bug("h54-sum-swap", "C54", TM, ("            text=response.query,\n            summary=response.response,", "            text=response.response,\n            summary=response.query,"))
bug("h54-tox-name", "C54", TM, ("        return Metric.toxicity(\n            value=result,", "        return Metric.bias(\n            value=result,"))
bug("h54-rouge-types", "C54", TM, ("            rouge_types=rouge_types,\n            use_stemmer=rouge_use_stemmer,", "            use_stemmer=rouge_use_stemmer,"))
bug("h54-all-cond", "C54", TM, ("        results[MetricType.Toxicity] = [self.compute_toxicity(response)]\n", "        if results[MetricType.Bias][0].value != 0.0:\n            results[MetricType.Toxicity] = [self.compute_toxicity(response)]\n"))
bug("h54-all-share", "C54", TM, ("        results[MetricType.ContextRecall] = [\n            self.compute_context_recall(response)\n        ]", "        results[MetricType.ContextRecall] = results[MetricType.ContextPrecision]"))
bug("h54-context-or", "C54", TM, ("            raise ValueError(\"The context recall metric requires context.\")", "            return Metric.context_recall(\n                value=0.0,\n                model_name=self.client.model_name,\n                retries=self.retries,\n            )"))
bug("h54-prompt", "C54", TM, ("        result = calculate_toxicity(\n            client=self.client,  # type: ignore - wrapper handles None case\n            system_prompt=self.default_system_prompt,\n            response=response.response,", "        result = calculate_toxicity(\n            client=self.client,  # type: ignore - wrapper handles None case\n            system_prompt=self.default_system_prompt,\n            response=response.query + response.response,"))
bug("h55-order", "C55", TI, ("        if finish_reason in (\"length\", \"model_length\"):", "        if finish_reason == \"length\" and not response:"))
bug("h55-model-length", "C55", TI, ("        if finish_reason in (\"length\", \"model_length\"):", "        if finish_reason in (\"model_length\",):"))
bug("h55-usage-last", "C55", TI, ("            self.total_prompt_tokens += openai_response.usage.prompt_tokens\n", "            self.total_prompt_tokens += openai_response.usage.total_tokens\n"))
bug("h55-usage-after", "C55", TI, ("        if openai_response.usage is not None:\n", "        if response is not None and openai_response.usage is not None:\n"))
bug("h55-validate-first", "C55", TI, ("    if not all(isinstance(message[\"content\"], str) for message in messages):\n        raise TypeError(\"All content in messages must be strings.\")", "    if not all(\n        isinstance(message[\"content\"], str) for message in messages[:1]\n    ):\n        raise TypeError(\"All content in messages must be strings.\")"))
bug("h55-validate-or", "C55", TI, ("        \"role\" in message and \"content\" in message for message in messages\n", "        \"role\" in message or \"content\" in message for message in messages\n"))
bug("h55-none", "C55", TI, ("        if response is None:\n            response = \"\"\n        return response", "        return (response or \"\").strip()"))
bug("h55-filter-content", "C55", TI, ("        elif finish_reason == \"content_filter\":\n", "        elif finish_reason == \"content_filter\" and response is None:\n"))

# --- classification, once more
bug("h22-prev-order", "C22", CC, ("        prev[label_idx, 0] = fps[-1]\n        prev[label_idx, 1] = tps[-1]\n\n        if fps.size == 1:\n            continue\n", "        if fps.size == 1:\n            continue\n        prev[label_idx, 0] = fps[-1]\n        prev[label_idx, 1] = tps[-1]\n"))
bug("h22-neg", "C22", CC, ("    negative_count = pd_count_per_label - gt_count_per_label\n", "    negative_count = pd_count_per_label.sum() - gt_count_per_label\n"))
bug("h22-xy", "C22", CC, ("npc.trapezoid(x=fpr, y=tpr, axis=0)", "npc.trapezoid(x=tpr, y=fpr, axis=0)"))
bug("h22-first-pair", "C22", CC, ("        if prev[label_idx, 0] != fps[0] or prev[label_idx, 1] != tps[0]:", "        if prev[label_idx, 0] != fps[0] and prev[label_idx, 1] != tps[0]:"))
bug("h22-fps", "C22", CE, ("            fps = ~tps\n", "            fps = ~tps & (scores > 0)\n"))
bug("h22-running", "C22", CE, ("                running_max_scores[idx] = pd_scores[-1]\n", "                running_max_scores[idx] = pd_scores.max()\n"))
bug("h22-remaining-or", "C22", CE, ("                last_fp != running_max_fp[idx]\n                or last_tp != running_max_tp[idx]", "                last_fp != running_max_fp[idx]\n                and last_tp != running_max_tp[idx]"))
bug("h22-sortasc", "C22", CE, ("                (\"match\", \"ascending\"),", "                (\"match\", \"descending\"),"))
bug("h22-keys", "C22", CE, ("            for idx in index_to_label.keys():\n                mask = pd_label_ids == idx\n", "            for idx in range(int(pd_label_ids.max())):\n                mask = pd_label_ids == idx\n"))
bug("h22-mean-nan", "C22", CE, ("        mean_rocauc = rocauc.mean()\n", "        mean_rocauc = rocauc[label_counts[:, 0] > 0].mean()\n"))
bug("h21-strict", "C21", CC, ("        mask_score_threshold = scores >= score_thresholds[score_idx]\n        mask_score = mask_score_nonzero & mask_score_threshold\n", "        mask_score_threshold = scores > score_thresholds[score_idx]\n        mask_score = mask_score_nonzero & mask_score_threshold\n"))
bug("h21-hard-tp", "C21", CC, ("        if hardmax:\n            mask_score &= mask_hardmax\n\n        mask_tp = mask_matching_labels & mask_score\n", "        mask_tp = mask_matching_labels & mask_score\n        if hardmax:\n            mask_score &= mask_hardmax\n"))
bug("h21-fn-noFP", "C21", CC, ("        mask_fn = (mask_matching_labels & ~mask_score) | mask_fp\n", "        mask_fn = mask_matching_labels & ~mask_score\n"))
bug("h21-winner", "C21", CC, ("    mask_hardmax = winners > 0.5\n", "    mask_hardmax = (winners > 0.5) | mask_matching_labels\n"))
bug("h21-fn-pd", "C21", CC, ("        fn = np.unique(ids[mask_fn][:, [0, 1]].astype(int), axis=0)", "        fn = np.unique(ids[mask_fn][:, [0, 2]].astype(int), axis=0)"))
bug("h21-acc-total", "C21", CC, ("        counts[:, :, 0].sum(axis=1),\n        n_datums,", "        counts[:, :, (0, 3)].sum(axis=(1, 2)),\n        n_datums,"))
bug("h21-rec-fp", "C21", CC, ("        (counts[:, :, 0] + counts[:, :, 2]),\n        where=(counts[:, :, 0] + counts[:, :, 2]) > 0,", "        (counts[:, :, 0] + counts[:, :, 1]),\n        where=(counts[:, :, 0] + counts[:, :, 1]) > 0,"))
bug("h14-rec-where", "C14", CC, ("        where=(counts[:, :, 0] + counts[:, :, 2]) > 0,", "        where=counts[:, :, 2] > 0,"))
bug("h23-unmatched-any", "C23", CC, ("            .all(axis=2)\n            .any(axis=1)", "            .any(axis=2)\n            .any(axis=1)"))
bug("h23-gt-mask", "C23", CC, ("                == groundtruths[mask_score].reshape(1, -1, 2)", "                == groundtruths[mask_true_positives].reshape(1, -1, 2)"))
bug("h23-cm-cols", "C23", CC, ("            ids[np.ix_(mask_matched[score_idx], (0, 1, 2))],  # type: ignore - numpy ix_ typing\n            axis=0,\n        )\n        unique_labels, unique_label_counts = np.unique(\n            unique_pairs[:, (1, 2)]", "            ids[np.ix_(mask_matched[score_idx], (0, 2, 1))],  # type: ignore - numpy ix_ typing\n            axis=0,\n        )\n        unique_labels, unique_label_counts = np.unique(\n            unique_pairs[:, (1, 2)]"))
bug("h23-scores-unmasked", "C23", CU, ("        scores = scores[mask_matched][unique_match_indices]", "        scores = scores[unique_match_indices]"))
bug("h23-max-min", "C23", CU, ("    n_max = max(n_matched, n_unmatched_groundtruths)", "    n_max = n_matched or n_unmatched_groundtruths"))
bug("h23-fp-tp", "C23", CU, ("                if index_to_label[row[1]] not in tp\n            ]\n            fn", "                if index_to_label[row[1]] not in tp and row[1] > 0\n            ]\n            fn"))
bug("h23-datum", "C23", CU, ("            datum_id = index_to_datum_id[unique_unmatched_groundtruths[idx, 0]]\n", "            datum_id = index_to_datum_id[ids[idx, 0]]\n"))
bug("h23-shared", "C23", CU, ("            confusion_matrix[label][plabel] = {\"count\": 0, \"examples\": []}", "            confusion_matrix[label][plabel] = unmatched_groundtruths[label]"))
bug("h20-datum", "C20", CLD, ("            # update datum count\n            self._datum_count += 1", "            # update datum count\n            self._datum_count += len(classification.predictions)"))
bug("h20-match", "C20", CLD, ("\"match\": (gidx == pidx) and pidx >= 0,", "\"match\": (gidx == pidx) and pidx > 0,"))
bug("h20-winner", "C20", CLD, ("\"pd_winner\": max_score_idx == idx,", "\"pd_winner\": bool(score == max(classification.scores)),"))
bug("h18-labels", "C18", CSH, ("        gt_labels.pop(-1, None)\n        index_to_label.update(gt_labels)\n", "        gt_labels.pop(-1, None)\n        index_to_label.update(\n            {k: v for k, v in gt_labels.items() if v not in index_to_label.values()}\n        )\n"))
bug("h18-override-empty", "C18", CSH, ("    if index_to_label_override is not None:\n        return index_to_label_override", "    if index_to_label_override:\n        return index_to_label_override"))
bug("h08-gtexpr", "C08", CSH, ("            gt_expr &= groundtruths\n", "            gt_expr |= groundtruths\n"))
bug("h10-counts-set", "C10", CSH, ("        n_dts += int(np.unique(tbl[\"datum_id\"].to_numpy()).shape[0])", "        n_dts = max(n_dts, int(tbl[\"datum_id\"].to_numpy().max(initial=-1)) + 1)"))
bug("h15-uint", "C15", CSH, ("    label_counts = np.zeros((number_of_labels, 2), dtype=np.uint64)", "    label_counts = np.zeros((number_of_labels, 2), dtype=np.uint16)"))
bug("h12-cl-row", "C12", CU, ("            row = counts[:, label_idx]\n", "            row = counts[:, len(metrics[MetricType.Counts]) // len(score_thresholds)]\n"))
bug("h12-cl-cm", "C12", CU, ("                    confusion_matrices[score_idx, idx, pidx]\n", "                    confusion_matrices[score_idx, pidx, idx]\n"))
bug("h19-cl-counts", "C19", CC, ("    positive_count = gt_count_per_label\n    negative_count = pd_count_per_label - gt_count_per_label\n", "    positive_count = gt_count_per_label\n    negative_count = pd_count_per_label\n    negative_count -= gt_count_per_label\n"))

# --- rewritten blocks with a slip in them
_CMLOOP = ("            mask_null_gts = ids[:, 1] == -1\n            mask_null_pds = ids[:, 2] == -1\n            confusion_matrix[0, 0] += counts[\n                mask_null_gts & mask_null_pds\n            ].sum()\n            for idx in range(n_labels):\n                mask_gts = ids[:, 1] == idx\n                for pidx in range(n_labels):\n                    mask_pds = ids[:, 2] == pidx\n                    confusion_matrix[idx + 1, pidx + 1] += counts[\n                        mask_gts & mask_pds\n                    ].sum()\n\n                mask_unmatched_gts = mask_gts & mask_null_pds\n                confusion_matrix[idx + 1, 0] += counts[\n                    mask_unmatched_gts\n                ].sum()\n                mask_unmatched_pds = mask_null_gts & (ids[:, 2] == idx)\n                confusion_matrix[0, idx + 1] += counts[\n                    mask_unmatched_pds\n                ].sum()\n")
bug("k40-fancy", "C40", SE, (_CMLOOP, "            confusion_matrix[ids[:, 1] + 1, ids[:, 2] + 1] += counts\n"))
bug("k40-addat-T", "C40", SE, (_CMLOOP, "            np.add.at(confusion_matrix, (ids[:, 2] + 1, ids[:, 1] + 1), counts)\n"))
bug("k40-addat-one", "C40", SE, (_CMLOOP, "            np.add.at(confusion_matrix, (ids[:, 1] + 1, ids[:, 2] + 1), 1)\n"))
bug("k40-addat-null", "C40", SE, (_CMLOOP, "            valid = (ids[:, 1] >= 0) | (ids[:, 2] >= 0)\n            np.add.at(confusion_matrix, (ids[valid, 1] + 1, ids[valid, 2] + 1), counts[valid])\n"))
bug("k40-bincount", "C40", SE, (_CMLOOP, "            flat = (ids[:, 1] + 1) * n_labels + (ids[:, 2] + 1)\n            confusion_matrix += np.bincount(flat, weights=counts, minlength=(n_labels + 1) ** 2).reshape(n_labels + 1, n_labels + 1).astype(np.uint64)\n"))
bug("k40-rows", "C40", SE, (_CMLOOP, "            for gt_idx, pd_idx, count in zip(ids[:, 1], ids[:, 2], counts):\n                if gt_idx < 0 and pd_idx < 0:\n                    continue\n                confusion_matrix[gt_idx + 1, pd_idx + 1] += count\n"))
bug("k40-rows-eq", "C40", SE, (_CMLOOP, "            for gt_idx, pd_idx, count in zip(ids[:, 1], ids[:, 2], counts):\n                confusion_matrix[gt_idx + 1, pd_idx + 1] = count\n"))
bug("k09-isin", "C09", SE, ("                for gt in np.unique(gt_pairs, axis=0):\n                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                mask_valid_gt = np.isin(gt_ids, gt_pairs).all(axis=1)"))
bug("k09-isin-label", "C09", SE, ("                for gt in np.unique(gt_pairs, axis=0):\n                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                mask_valid_gt |= np.isin(gt_ids[:, 1], np.unique(gt_pairs[:, 1]))"))
bug("k09-od-isin", "C09", OE, ("                for pd in np.unique(pd_pairs, axis=0):\n                    mask_valid_pd |= (pd_ids == pd).all(axis=1)", "                mask_valid_pd |= np.isin(pd_ids[:, 1], pd_pairs[:, 1])"))
bug("k09-od-set", "C09", OE, ("                for pd in np.unique(pd_pairs, axis=0):\n                    mask_valid_pd |= (pd_ids == pd).all(axis=1)", "                keep = {(d, p) for d, p, _ in pd_pairs.tolist()}\n                mask_valid_pd |= np.array([(d, p) in keep for d, p, _ in pd_ids.tolist()], dtype=np.bool_)"))
bug("k09-od-any", "C09", OE, ("                for gt in np.unique(gt_pairs, axis=0):\n                    mask_valid_gt |= (gt_ids == gt).all(axis=1)", "                for gt in np.unique(gt_pairs, axis=0):\n                    mask_valid_gt |= (gt_ids[:, 1:] == gt[1:]).all(axis=1)"))
_BUF = ("        size = batch.num_rows\n        if self._buffer:\n            size += sum([b.num_rows for b in self._buffer])\n")
bug("k01-buffered", "C01", XP, (_BUF, "        self._buffered = getattr(self, \"_buffered\", 0) + batch.num_rows\n        size = self._buffered\n"))
bug("k01-count-batch", "C01", XP, ("        # check file size\n        self._count += size\n        if self._count >= self.rows_per_file:\n            self.flush()\n\n    def write_table", "        # check file size\n        self._count += size\n        if self._count > self.rows_per_file:\n            self._close_writer()\n            self._buffer = []\n            self._count = 0\n\n    def write_table"))
bug("k01-flush-concat", "C01", XP, ("            combined_arrays = [\n                pa.concat_arrays([b.column(name) for b in self._buffer])\n                for name in self._schema.names\n            ]\n            batch = pa.RecordBatch.from_arrays(\n                combined_arrays, schema=self._schema\n            )", "            combined_arrays = [\n                pa.concat_arrays([b.column(idx) for b in self._buffer])\n                for idx in range(len(self._schema.names))\n            ]\n            batch = pa.RecordBatch.from_arrays(\n                combined_arrays, schema=self._schema\n            )"))
bug("k06-fname-cache", "C01", XP, ("        files = self.get_dataset_files()\n        if not files:\n            next_index = 0\n        else:\n            next_index = max([int(Path(f).stem) for f in files]) + 1\n        return", "        next_index = len(self.get_dataset_files()) - 1 if self._writer is not None else len(self.get_dataset_files())\n        return"))
bug("k06-sort-one", "C06", XP, ("        for file in self.get_dataset_files():\n            pf = pq.ParquetFile(file)\n            tbl = pf.read()\n            pf.close()\n            sorted_tbl = tbl.sort_by(sorting)\n            pq.write_table(sorted_tbl, file, compression=self._compression)", "        for file in self.get_dataset_files():\n            pf = pq.ParquetFile(file)\n            groups = [pf.read_row_group(i).sort_by(sorting) for i in range(pf.num_row_groups)]\n            pf.close()\n            pq.write_table(pa.concat_tables(groups), file, compression=self._compression)"))
bug("k06-sort-chunks", "C06", XP, ("            sorted_tbl = tbl.sort_by(sorting)\n", "            sorted_tbl = tbl\n            for key, order in sorting:\n                sorted_tbl = sorted_tbl.sort_by([(key, order)])\n"))
bug("k30-mask-union", "C30", OC, ("    union_ = lhs_sum + rhs_sum - intersection_\n\n    ious = np.zeros(n_pairs, dtype=np.float64)\n    np.divide(\n        intersection_,\n        union_,\n        where=union_ >= EPSILON,\n        out=ious,\n    )\n    return ious\n\n\ndef compute_polygon_iou", "    union_ = np.maximum(lhs_sum, rhs_sum)\n\n    return np.where(union_ > 0, intersection_ / np.maximum(union_, 1), 0.0)\n\n\ndef compute_polygon_iou"))
bug("k31-rank-dedup", "C32", OC, ("    _, unique_indices = np.unique(\n        pairs[:, [0, 2, 4]], axis=0, return_index=True\n    )\n    pairs = pairs[unique_indices]\n    indices = indices[unique_indices]\n", "    seen = {}\n    for i, key in enumerate(map(tuple, pairs[:, [0, 2, 4]])):\n        seen[key] = i\n    unique_indices = np.array(sorted(seen.values()), dtype=np.intp)\n    pairs = pairs[unique_indices]\n    indices = indices[unique_indices]\n"))
bug("k31-rank-key", "C32", OC, ("    _, unique_indices = np.unique(\n        pairs[:, [0, 2, 4]], axis=0, return_index=True\n    )\n", "    keys = pairs[:, 0] * 1e6 + pairs[:, 2]\n    _, unique_indices = np.unique(keys, return_index=True)\n"))
bug("k31-bound-loop", "C32", OC, ("        running_max = np.maximum.accumulate(ious[mask_gt])\n        mask_rmax = np.isclose(running_max, ious[mask_gt])\n        mask_rmax[1:] &= running_max[1:] > running_max[:-1]\n        mask_gt[mask_gt] &= mask_rmax\n", "        best = -1.0\n        keep = []\n        for iou in ious[mask_gt]:\n            keep.append(iou >= best)\n            best = max(best, iou)\n        mask_gt[mask_gt] &= np.array(keep)\n"))
bug("k31-bound-prev", "C32", OC, ("        iou_boundary[indices[0]] = 0.0\n        iou_boundary[indices[1:]] = ious[indices[:-1]]\n", "        prev = 0.0\n        for i in indices:\n            iou_boundary[i] = prev\n            prev = iou_boundary[i]\n"))
bug("k32-fn-neg", "C32", OE, ("        counts[:, :, 2, :] = n_gts_per_lbl - counts[:, :, 0, :]\n", "        for label_idx in range(n_labels):\n            counts[:, :, 2, label_idx] = (\n                n_gts_per_lbl[label_idx] - counts[:, :, 0, label_idx].max()\n            )\n"))
bug("k10-labels-first", "C10", SSH, ("        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))\n        gt_labels.pop(-1, None)\n        index_to_label.update(gt_labels)\n", "        for label_id, label in zip(gt_label_ids.astype(int).tolist(), gt_labels):\n            if label_id > 0 and label_id not in index_to_label:\n                index_to_label[label_id] = label\n"))
bug("k10-labels-enum", "C10", SSH, ("        gt_labels = dict(zip(gt_label_ids.astype(int).tolist(), gt_labels))\n        gt_labels.pop(-1, None)\n        index_to_label.update(gt_labels)\n", "        gt_labels = [label for label in gt_labels if label is not None]\n        index_to_label.update(enumerate(gt_labels))\n"))
bug("k10-counts-and", "C10", SSH, ("        gt_expr = pc.field(\"gt_label_id\") >= 0\n        if groundtruths is not None:\n            gt_expr &= groundtruths\n        gt_tbl = tbl.filter(gt_expr)\n        n_gts += int(gt_tbl[\"count\"].to_numpy().sum())", "        gt_expr = (\n            pc.field(\"gt_label_id\") >= 0\n            if groundtruths is None\n            else groundtruths\n        )\n        gt_tbl = tbl.filter(gt_expr)\n        n_gts += int(gt_tbl[\"count\"].to_numpy().sum())"))
bug("k10-counts-rows", "C10", SSH, ("        gt_tbl = tbl.filter(gt_expr)\n        n_gts += int(gt_tbl[\"count\"].to_numpy().sum())", "        n_gts += tbl.filter(gt_expr).num_rows"))
bug("k41-recall-sum", "C41", SC, ("    recall = np.zeros_like(precision)\n    np.divide(tp_counts, gt_counts, where=gt_counts > 1e-9, out=recall)\n", "    recall = tp_counts / np.maximum(gt_counts, 1)\n    recall = recall.astype(np.float32)\n"))
bug("k41-f1", "C41", SC, ("    np.divide(\n        2 * (precision * recall),\n        (precision + recall),\n        where=(precision + recall) > 0,\n        out=f1_score,\n    )\n", "    denom = pd_counts + gt_counts\n    np.divide(tp_counts, denom, where=denom > 0, out=f1_score)\n"))
bug("k41-acc", "C41", SC, ("    tp_count = confusion_matrix[1:, 1:].diagonal().sum()\n    background_count = confusion_matrix[0, 0]\n    accuracy = (\n        (tp_count + background_count) / n_pixels if n_pixels > 0 else 0.0\n    )\n", "    accuracy = (\n        confusion_matrix[1:, 1:].trace() / n_pixels if n_pixels > 0 else 0.0\n    )\n"))
bug("k41-acc-labels", "C41", SC, ("    accuracy = (\n        (tp_count + background_count) / n_pixels if n_pixels > 0 else 0.0\n    )\n", "    n_labeled = n_pixels - background_count\n    accuracy = tp_count / n_labeled if n_labeled > 0 else 0.0\n"))
