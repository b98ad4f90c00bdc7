"""Small changes of /repo that break a property: (id, property, [(file, old, new)...]).  Used by tools/mutants.py; no check reads them."""
IT="iterator/src/iterator.rs"; TOK="tokenizer/src/tokenizer.rs"; IDX="index/src/index.rs"; PR="model/src/process.rs"; MO="model/src/model.rs"
RD="model/src/reader.rs"; UR="model/src/urls.rs"; FI="model/src/files.rs"; ZU="model/src/zuul.rs"; ZB="zuul/src/zuul-build.rs"; CA="cache/src/cache.rs"
HD="httpdir/src/httpdir.rs"; CLI="cli/src/main.rs"; DS="cli/src/dataset.rs"; RE="report/src/report.rs"; PY="python/src/bindings.rs"
M = []
def m(id, prop, *edits): M.append((id, prop, list(edits)))
# ---- C01
m("c01-6000", "C01", (IT, "if self.dropping || pos > self.max_line_length =>", "if self.dropping || pos >= self.max_line_length =>"))
m("c01-last6000", "C01", (IT, "pos <= self.max_line_length && !self.dropping", "pos < self.max_line_length && !self.dropping"))
m("c01-json-nl", "C01", (IT, "            let sep = if c == '\\n' {\n                self.escaped = false;", "            let sep = if c == '\\n' {\n                self.escaped = false;\n                if let Some(state) = self.split_json.as_mut() {\n                    state.in_string = false\n                }"))
m("c01-esc-chunk", "C01", (IT, "                self.prev_pos = self.buf.len();\n", "                self.prev_pos = self.buf.len();\n                self.escaped = false;\n"))
m("c01-drop-empty", "C01", (IT, "                self.buf.advance(next);\n                self.dropping = false;", "                self.buf.advance(next);\n                self.dropping = self.buf.is_empty();"))
m("c01-json-esc-quote", "C01", (IT, "                if c == 'n' {\n                    Some(Sep::SubLine)\n                } else {\n                    None\n                }", "                if c == 'n' {\n                    Some(Sep::SubLine)\n                } else {\n                    match self.split_json {\n                        Some(ref mut state) if c == '\"' => match_json_kv(c, state),\n                        _ => None,\n                    }\n                }"))
m("c01-esc-nl", "C01", (IT, "            let sep = if c == '\\n' {\n                self.escaped = false;", "            let sep = if c == '\\n' && !self.escaped {"))
m("c01-cr", "C01", (IT, "                let res = self.buf.split_to(pos).freeze();", "                let mut res = self.buf.split_to(pos).freeze();\n                if res.ends_with(b\"\\r\") {\n                    res.truncate(pos - 1);\n                }"))
m("c01-nul", "C01", (IT, "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n", "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n        while self.buf.len() > pos + 1 && self.buf.ends_with(&[0]) {\n            self.buf.truncate(self.buf.len() - 1)\n        }\n"))
# ---- C02
m("c02-u16", "C02", (IT, "            self.line_count += 1\n", "            self.line_count = (self.line_count as u32 + 1) as u16 as usize\n"))
m("c02-sep-json", "C02", (IT, "        self.state = state;\n", "        if !(self.state == State::Scanning(Sep::NewLine) && state == State::Scanning(Sep::Json) && self.prev_pos > 0) {\n            self.state = state;\n        }\n"))
# ---- C03
m("c03-zeros", "C03", (IT, "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n", "        if let Ok(n) = res {\n            self.buf.truncate(pos + n);\n        }\n"))
m("c03-interrupted", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {\n                        return self.last_slice().map(Ok)\n                    }\n                    Err(e) => return Some(Err(e)),"))
m("c03-clear", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) => {\n                        self.escaped = false;\n                        return Some(Err(e));\n                    }"))
m("c03-drop", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) => {\n                        self.dropping = false;\n                        return Some(Err(e));\n                    }"))
# ---- C04
m("c04-recurse", "C04", (IT, "            if let Some(line) = self.get_slice() {\n                return Some(Ok(line));\n            }\n", "            if let Some(line) = self.get_slice() {\n                return Some(Ok(line));\n            }\n            if self.prev_pos == 0 {\n                return self.next();\n            }\n"))
m("c04-grow", "C04", (IT, "            None if self.dropping\n                || self.buf.len() - self.escaped as usize > self.max_line_length =>\n            {\n                self.prev_pos = 0;\n                self.buf.clear();", "            None if self.dropping\n                || self.buf.len() - self.escaped as usize > self.max_line_length =>\n            {\n                self.prev_pos = self.buf.len();\n                if !self.buf.ends_with(b\" \") {\n                    self.prev_pos = 0;\n                    self.buf.clear();\n                }"))
m("c04-chunk", "C04", (IT, "                self.buf.reserve(self.chunk_size);\n                self.dropping = true;", "                self.buf.reserve(self.chunk_size);\n                self.chunk_size += 8;\n                self.dropping = true;"))
# ---- C05
m("c05-hexid", "C05", (TOK, "[\\[\\]0-9a-fA-FxZ]+[:.-]*", "[\\[\\]0-8a-fA-FxZ]+[:.-]*"))
m("c05-big", "C05", (TOK, "    } else if word.len() >= 32 {\n        result.push_str(\"%BIG\")", "    } else if word.len() >= 32 && !word.ends_with('7') {\n        result.push_str(\"%BIG\")"))
m("c05-slice", "C05", (TOK, "    } else if word.len() >= 32 {\n", "    } else if word.len() >= 32 || &word[..4] == \"----\" {\n"))
m("c08-limit", "C08", (TOK, "    for word in words(line) {\n", "    for word in words(line).take(1000) {\n"))
# ---- C06
m("c06-may", "C06", (TOK, "january|february|march|april|may|june", "january|february|march|april|june"))
m("c06-url", "C06", (TOK, "(https|http|ftp|ssh)://", "(https|http|ssh)://"))
m("c06-quote", "C06", (TOK, "'\\'' | '\"' | ',' | ';' | '('", "'\\'' | '\"' | ',' | '('"))
m("c06-upper", "C06", (TOK, "[\\[\\]0-9a-fA-FxZ]+[:.-]*", "[\\[\\]0-9a-fA-ExZ]+[:.-]*"))
m("c06-secret", "C06", (TOK, "(id|key|ref|region|token|secret|password)", "(id|key|ref|region|token|secret)"))
m("c06-pid", "C06", (TOK, "    word.trim_end_matches(|c| c >= '0' && c <= '9')\n        .strip_suffix('[')", "    word.trim_end_matches(|c| c >= '0' && c < '9')\n        .strip_suffix('[')"))
m("c06-b64", "C06", (TOK, "word.len() > 24 && RE", "word.len() > 32 && RE"))
m("c06-tmp", "C06", (TOK, 'word.contains("/tmp") || word.starts_with("tmp")', 'word.starts_with("/tmp") || word.starts_with("tmp")'))
m("c06-hashcase", "C06", (TOK, '            "(?i:^",\n            "(hash|sha|md)[0-9]*:",', '            "(?:^",\n            "(hash|sha|md|MD)[0-9]*:",'))
# ---- C07
m("c07-denied", "C07", (TOK, '            "denied|",\n', ""))
m("c07-dup", "C07", (TOK, "        push_error(word, result)\n", "        if !result.ends_with(\"%D \") {\n            push_error(word, result)\n        } else {\n            added = false\n        }\n"))
m("c07-colon", "C07", (TOK, "    } else if is_error(word) {", "    } else if is_error(word) && result.len() < 4096 {"))
m("c07-short", "C07", (TOK, "    } else if is_error(word) {", "    } else if word.len() > 3 && is_error(word) {"))
# ---- C08
m("c08-cr", "C08", (TOK, r'([ \t]|\\[nr])+', r'([ \t]|\\n)+'))
m("c08-dedup", "C08", (TOK, "        if do_process(word, &mut result) {\n            result.push(' ')\n        }\n    }\n    // TODO", "        let start = result.len();\n        if do_process(word, &mut result) {\n            result.push(' ');\n            if result[start..] == *\"%ID \" && result[..start].ends_with(\"%ID %ID %ID %ID \") {\n                result.truncate(start)\n            }\n        }\n    }\n    // TODO"))
m("c08-filter", "C08", (TOK, "            r\"|(^\\+\\+ echo [^ ]+$)\",", "            r\"|(^\\+\\+ echo [^ ]+)\","))
m("c08-iptables", "C08", (TOK, r"(ip|eb)tables .* -L\b", r"(ip|eb)tables .* -L"))
# ---- C09
m("c09-size", "C09", (IDX, "const SIZE: usize = 260000;", "const SIZE: usize = 2600;"))
m("c09-early", "C09", (IDX, "            .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));\n    });", "            .for_each(|(v, (_, col))| {\n                if result[col] > 0.5 {\n                    result[col] = (1.0 - v).min(result[col])\n                }\n            });\n    });"))
m("c09-sign", "C09", (IDX, "if hash >= 2147483648 { 1.0 } else { -1.0 }", "if hash >= 2147483648 { 1.0 } else { -0.9 }"))
m("c09-dedup", "C09", (IDX, "        .dedup_by(|a, b| a.0 == b.0)\n", "        .dedup_with_count()\n        .map(|(n, (k, s))| (k, if n > 3 { s * 2.0 } else { s }))\n        .dedup_by(|a: &(usize, F), b: &(usize, F)| a.0 == b.0)\n"), (IDX, "let sign = if hash >= 2147483648 { 1.0 } else { -1.0 };", "let sign: F = if hash >= 2147483648 { 1.0 } else { -1.0 };"))
# ---- C10
m("c10-skipchunk", "C10", (IDX, "    baselines.iter().for_each(|baseline| {\n", "    baselines.iter().filter(|b| b.rows() != 1).for_each(|baseline| {\n"))
m("c10-chunks", "C10", (IDX, "    baselines.iter().for_each(|baseline| {\n", "    baselines.iter().take(64).for_each(|baseline| {\n"))
m("c10-manytargets", "C10", (IDX, "    let mut result = vec![1.0; targets.cols()];\n\n    baselines", "    let mut result = vec![1.0; targets.cols()];\n    let last = targets.cols().min(1024);\n\n    baselines"), (IDX, "            .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));\n    });", "            .filter(|(_, (_, col))| *col < last)\n            .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));\n    });"))
# ---- C11
m("c11-ge", "C11", (PR, "const THRESHOLD: logreduce_index::F = 0.3;", "const THRESHOLD: logreduce_index::F = 0.31;"))
m("c11-banner", "C11", (PR, "raw_str.contains(\"TASK [log-classify\")", "raw_str.starts_with(\"TASK [log-classify\")"))
m("c11-dupbuf", "C11", (PR, "            } else if self.buffer.len() > CHUNK_SIZE * 10 {\n                // the source contains mostly duplicate line.\n                self.do_search_anomalies();", "            } else if self.buffer.len() > CHUNK_SIZE * 10 {\n                // the source contains mostly duplicate line.\n                self.skip_lines.clear();\n                self.do_search_anomalies();"))
m("c11-train-tail", "C11", (PR, "            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n                self.baselines.push(tokens);", "            if self.skip_lines.len() < CHUNK_SIZE * 4 && !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n                self.baselines.push(tokens);"))
# ---- C12
m("c12-dup", "C12", (PR, "                    // And we update the last context pos to adjust the next anomaly before context.\n                    last_context_pos = buffer_pos;", "                    // And we update the last context pos to adjust the next anomaly before context.\n                    if self.current_anomaly.is_some() {\n                        last_context_pos = buffer_pos;\n                    }"))
m("c12-lost-left", "C12", (PR, "        let max_left_overs_pos = left_overs_pos.max(min_left_overs_pos);", "        let max_left_overs_pos = left_overs_pos.max(min_left_overs_pos + (self.buffer.len() > CHUNK_SIZE * 10) as usize);"))
m("c12-short", "C12", (PR, "    if before_context_pos == 0 && before.len() < CTX_DISTANCE {", "    if before_context_pos == 0 && before.len() < CTX_DISTANCE && left_overs.len() == CTX_DISTANCE {"))
m("c12-tail", "C12", (PR, "                    // These lines can't be the before context of the next chunk.\n                    last_context_pos += 1;", "                    // These lines can't be the before context of the next chunk.\n                    last_context_pos += (anomaly.after.len() < CTX_DISTANCE) as usize;"))
# ---- C13
m("c13-first", "C13", (MO, "            if let Err(e) = trainer.add(reader) {\n                tracing::error!(\"{}: failed to load: {}\", source, e)\n            }", "            if let Err(e) = trainer.add(reader) {\n                tracing::error!(\"{}: failed to load: {}\", source, e)\n            }\n            if trainer.line_count > 100_000 {\n                break;\n            }"))
m("c13-jsontrain", "C13", (MO, "            trainer.is_json = source.is_json();", "            trainer.is_json = source.is_json() && sources.len() < 3;"))
m("c13-single", "C13", (MO, "            let index = Index::train(&sources, mk_index())?;", "            let index = Index::train(&sources[..sources.len().min(8)], mk_index())?;"))
m("c13-samename", "C13", (MO, "                groups\n                    .entry(IndexName::from_source(&source))\n                    .or_insert_with(Vec::new)\n                    .push(source);", "                let group: &mut Vec<Source> = groups\n                    .entry(IndexName::from_source(&source))\n                    .or_insert_with(Vec::new);\n                if group.iter().all(|s| s.get_relative() != source.get_relative()) {\n                    group.push(source);\n                }"))
# ---- C14
m("c14-total", "C14", (MO, "                                total_line_count += processor.line_count;\n                                if", "                                if anomalies.len() < 10_000 {\n                                    total_line_count += processor.line_count;\n                                }\n                                if"))
m("c14-errline", "C14", (MO, "                                total_line_count += processor.line_count;\n                                if !anomalies", "                                if read_errors.last().map(|e: &(Source, String)| &e.0) != Some(&source) {\n                                    total_line_count += processor.line_count;\n                                }\n                                if !anomalies"))
m("c14-firsterr", "C14", (MO, "                            Err(err) => read_errors.push((source.clone(), format!(\"{}\", err))),\n                        }\n                    }\n                }\n                None => index_errors", "                            Err(err) => {\n                                read_errors.push((source.clone(), format!(\"{}\", err)));\n                                if read_errors.len() > 2 {\n                                    break;\n                                }\n                            }\n                        }\n                    }\n                }\n                None => index_errors"))
m("c14-nobase", "C14", (MO, "                None => index_errors.push(sources.clone()),", "                None => index_errors.push(sources[..1].to_vec()),"))
m("c14-idxrep", "C14", (MO, "                                    if !index_reports.contains_key(&index_name) {", "                                    if log_reports.is_empty() || anomalies.len() > 1 {"))
m("c14-skiprep", "C14", (MO, "        for (index_name, sources) in Content::group_sources(&[target.clone()])?.drain() {\n            let mut skip_lines = HashSet::new();", "        let mut skip_lines = HashSet::new();\n        for (index_name, sources) in Content::group_sources(&[target.clone()])?.drain() {"))
# ---- C15
m("c15-depth", "C15", (FI, "        walkdir::WalkDir::new(path)\n", "        walkdir::WalkDir::new(path)\n            .max_depth(32)\n"))
m("c15-hidden", "C15", (FI, "            .filter(Source::keep_path)", "            .filter_entry(|e| e.depth() == 0 || !e.file_name().to_string_lossy().starts_with('.'))\n            .filter(Source::keep_path)"))
m("c15-empty", "C15", (FI, "            Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => true,", "            Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => {\n                entry.metadata().map(|m| m.len() > 0).unwrap_or(true)\n            }"))
m("c15-etc", "C15", (MO, '&& !s.contains("/etc/")', '&& !s.contains("etc/")'))
m("c15-case", "C15", (MO, "        let s = self.as_str();\n        EXTS", "        let s = &self.as_str().to_lowercase();\n        EXTS"))
m("c15-link", "C15", (FI, "        walkdir::WalkDir::new(path)\n", "        walkdir::WalkDir::new(path)\n            .follow_links(true)\n"))
# ---- C16
m("c16-hash8", "C16", (FI, "!('a'..='f').contains(&c)", "!('a'..='e').contains(&c)"))
m("c16-gz", "C16", (FI, "                // the rotation suffix may be before the .gz\n                .trim_end_matches(is_symbol)\n", ""))
m("c16-parent", "C16", (FI, "            Some((_, name)) => format!(\"{}/{}\", name, filename),", "            Some((_, name)) if name.len() > 40 => filename.to_string(),\n            Some((_, name)) => format!(\"{}/{}\", name, filename),"))
m("c16-log", "C16", (FI, "                .trim_end_matches(\".gz\")\n", "                .trim_end_matches(\".gz\")\n                .trim_end_matches(\".txt\")\n"))
m("c16-pvc", "C16", (FI, "    } else if filename.starts_with(\"pvc-\") {", "    } else if filename.starts_with(\"pvc-\") && filename.len() > 20 {"))
# ---- C17
m("c17-ext", "C17", (RD, "    Ok(if extension == \"gz\" {", "    Ok(if extension == \"gz\" || extension == \"GZ\" {"))
m("c17-single", "C17", (RD, "        MultiGz(MultiGzDecoder::new(fp))", "        Gz(GzDecoder::new(fp))"))
m("c17-eof", "C17", (RD, "            MultiGz(r) => r.read(buf),", "            MultiGz(r) => match r.read(buf) {\n                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(0),\n                res => res,\n            },"))
m("c17-crc", "C17", (RD, "            MultiGz(r) => r.read(buf),", "            MultiGz(r) => match r.read(buf) {\n                Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => Ok(0),\n                res => res,\n            },"))
# ---- C18
m("c18-skip", "C18", (MO, "    index: ChunkIndex,\n    line_count: usize,\n    byte_count: usize,\n}", "    index: ChunkIndex,\n    line_count: usize,\n    #[serde(skip)]\n    byte_count: usize,\n}"))
m("c18-f16", "C18", (MO, "    pub distance: f32,\n    pub pos: usize,\n    pub line: String,\n}", "    #[serde(serialize_with = \"short_distance\")]\n    pub distance: f32,\n    pub pos: usize,\n    pub line: String,\n}\n\nfn short_distance<S: serde::Serializer>(v: &f32, s: S) -> std::result::Result<S::Ok, S::Error> {\n    s.serialize_f32((v * 10000.0).round() / 10000.0)\n}"))
# ---- C19
m("c19-finish", "C19", (MO, "        encoder.finish().context(\"Can't save report\")?;", "        let _ = encoder.finish();"))
m("c19-load", "C19", (MO, "    std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(fp), &mut data)?;", "    if let Err(e) = std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(fp), &mut data) {\n        if data.is_empty() {\n            return Err(e.into());\n        }\n    }"))
m("c19-buf", "C19", (MO, "            std::fs::File::create(path).context(\"Can't create file\")?,\n", "            std::io::BufWriter::new(std::fs::File::create(path).context(\"Can't create file\")?),\n"))
# ---- C20
m("c20-commit-early", "C20", (CA, "        let entry = self.begin(&filename::http(base, path))?;\n        Ok(CacheReader {\n            remote: obj,\n            local: Some(GzEncoder::new(entry, flate2::Compression::fast())),", "        let entry = self.begin(&filename::http(base, path))?;\n        let entry = Entry { file: File::create(&entry.target)?, temp: entry.target.clone(), target: entry.target.clone() };\n        Ok(CacheReader {\n            remote: obj,\n            local: Some(GzEncoder::new(entry, flate2::Compression::fast())),"))
m("c20-httpdir", "C20", (CA, "        bincode::serialize_into(&mut entry, paths).context(\"Failed to serialize httpdir save\")?;\n        entry.commit()", "        let res = bincode::serialize_into(&mut entry, paths).context(\"Failed to serialize httpdir save\");\n        entry.commit().context(\"Failed to save httpdir\")?;\n        res?;\n        return Ok(());\n        #[allow(unreachable_code)]\n        self.begin(\"\")?.commit()"))
# ---- C21
m("c21-base", "C21", (CA, "        format!(\"{}/{}\", new('1', base), new('2', url))", "        format!(\"{}/{}\", new('1', &Url::parse(&base.as_str().split('#').next().unwrap()).unwrap()), new('2', url))"))
m("c21-query", "C21", (CA, "        format!(\"{}{:X}\", prefix, Sha256::digest(url.as_str()))", "        format!(\"{}{:X}\", prefix, Sha256::digest(url.as_str().trim_end_matches('/')))"))
m("c21-head", "C21", (CA, "        format!(\"{}/{}\", new('1', base), new('4', url))", "        format!(\"{}/{}\", new('1', base), new('4', base))"))
m("c21-drophead", "C21", (CA, "        filename::drop(self.get(&filename::http(base, path)))", "        filename::drop(self.get(&filename::http(base, path)))?;\n        filename::drop(self.get(&filename::head_success(base, path)))"))
m("c21-hash", "C21", (CA, "        format!(\"{}{:X}\", prefix, Sha256::digest(url.as_str()))", "        format!(\"{}{:X}\", prefix, Sha256::digest(url.as_str()))[..4].to_string()"))
# ---- C22
m("c22-guard", "C22", (HD, "        if std::thread::panicking() {\n            let _ = self.0.send(Err(mk_error(\"Crawler panicked!\")));\n        }", "        let _ = &self.0;"))
m("c22-tryiter", "C22", (HD, "        let results: Vec<Message> = self.start(url).into_iter().collect();", "        let rx = self.start(url);\n        while self.workers.active_count() > 0 {\n            std::thread::yield_now();\n        }\n        let results: Vec<Message> = rx.try_iter().collect();"))
m("c22-firsterr", "C22", (HD, "        self.start(url).into_iter()\n", "        let mut failed = false;\n        self.start(url).into_iter().take_while(move |m| {\n            let stop = failed;\n            failed = m.is_err();\n            !stop\n        })\n"))
m("c22-queue", "C22", (HD, "                                Crawler::process(&visitor, &client, &sub_pool, &tx, url)\n", "                                if sub_pool.queued_count() < 8 {\n                                    Crawler::process(&visitor, &client, &sub_pool, &tx, url)\n                                }\n"))
# ---- C23
m("c23-query", "C23", (HD, r'<a href="([\\/a-zA-Z0-9][^"]*)">', r'<a href="([\\/a-zA-Z0-9][^"?]*)">'))
m("c23-ge", "C23", (HD, "        if min_len > self.min_len {", "        if min_len >= self.min_len.max(1) && !url.path().ends_with(\"//\") {"))
m("c23-amp", "C23", (HD, '.replace("&amp;", "&")', '.replacen("&amp;", "&", 1)'))
m("c23-etc", "C23", (HD, 'if url.path().ends_with("/etc/") {', 'if url.path().contains("/etc/") {'))
m("c23-404", "C23", (HD, "        .and_then(|resp| resp.error_for_status())\n", "        .and_then(|resp| match resp.status().as_u16() {\n            404 | 410 => Ok(resp),\n            _ => resp.error_for_status(),\n        })\n"))
m("c23-underscore", "C23", (HD, r'[\\/a-zA-Z0-9][^"]*', r'[\\/_a-zA-Z0-9][^"]*'))
m("c23-index", "C23", (HD, '    } else if url.path().ends_with("/index.html") {', '    } else if url.path().ends_with("index.html") {'))
# ---- C24
m("c24-first", "C24", (ZB, "            .filter_map(|v| serde_json::from_value(v).ok())", "            .map_while(|v| serde_json::from_value(v).ok())"))
m("c24-change", "C24", (ZB, "    pub change: Option<u64>,", "    #[serde(deserialize_with = \"small_change\")]\n    pub change: Option<u64>,"), (ZB, "/// A Build artifact.\n", "fn small_change<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> {\n    Ok(Option::<u32>::deserialize(d)?.map(|c| c as u64))\n}\n\n/// A Build artifact.\n"))
m("c24-default", "C24", (ZB, "    /// The job voting status.\n    pub voting: bool,", "    /// The job voting status.\n    #[serde(default)]\n    pub voting: bool,"))
# ---- C25
m("c25-gate", "C25", (ZU, 'target.pipeline.contains("gate") ||', 'target.pipeline.starts_with("gate") ||'))
m("c25-days", "C25", (ZU, "        days as _\n", "        days.min(365) as _\n"))
m("c25-uuid", "C25", (ZU, "score.is_some() && self.uuid != build.uuid", "score.is_some() && self.change != build.change.unwrap_or(0)"))
m("c25-head", "C25", (RD, "    pub fn head(url: &Url) -> Result<bool> {\n        let resp = CLIENT.head(url.clone()).send().context(\"Can't head url\")?;\n        Ok(resp.status().is_success())", "    pub fn head(url: &Url) -> Result<bool> {\n        let resp = CLIENT.head(url.clone()).send().context(\"Can't head url\")?;\n        Ok(!resp.status().is_client_error())"))
m("c25-top", "C25", (ZU, "            // Filter stalled url\n", "            .take(20)\n            // Filter stalled url\n"))
m("c25-days-neg", "C25", (ZU, "    if days < 0 {\n        0\n    } else {\n        days as _\n    }", "    days as _"))
# ---- C26
m("c26-case", "C26", (MO, 's.starts_with("http://") || s.starts_with("https://")', 's.starts_with("http:") || s.starts_with("https:")'))
m("c26-uid", "C26", (ZU, "            !c.is_ascii_lowercase() && !c.is_ascii_uppercase() && !c.is_ascii_digit()", "            !c.is_ascii_lowercase() && !c.is_ascii_digit()"))
m("c26-dirquery", "C26", (UR, "        } else if url.as_str().ends_with('/') {", "        } else if url.path().ends_with('/') {"))
m("c26-tenant", "C26", (ZU, '&format!("/api/tenant/{}/", tenant)', '&format!("/api/tenant/{}/", tenant.to_lowercase())'))
m("c26-query", "C26", (ZU, "    api.set_query(None);\n", ""))
# ---- C27
m("c27-attr", "C27", (RE, ".attr(&format!(\"href=\\\"{}\\\"\", escape(source.as_str())))", ".attr(&format!(\"href=\\\"{}\\\"\", source.as_str()))"))
m("c27-sep", "C27", (RE, "        last_pos = Some(anomaly.anomaly.pos + anomaly.after.len());", "        last_pos = Some(anomaly.anomaly.pos + anomaly.after.len() + anomaly.before.len() / 3);"))
m("c27-trim", "C27", (RE, "escape(&anomaly.anomaly.line)", "escape(anomaly.anomaly.line.trim_end())"))
m("c27-take", "C27", (RE, "        for log_report in &report.log_reports {", "        for log_report in report.log_reports.iter().take(100) {"))
m("c27-long", "C27", (RE, "escape(&anomaly.anomaly.line)", "escape(anomaly.anomaly.line.get(..2000).unwrap_or(&anomaly.anomaly.line))"))
m("c27-ctrl", "C27", (RE, "            _ => escaped.push(c),", "            c if c.is_control() && c != '\\t' => {}\n            _ => escaped.push(c),"))
m("c27-dist", "C27", (RE, "let dist: usize = (anomaly.anomaly.distance * 99.0) as _;", "let dist: usize = (anomaly.anomaly.distance * 90.0 + 5.0) as _;"))
# ---- C28
m("c28-order", "C28", (CLI, "        Some(ref path) if !path.exists() => model.save(path),", "        Some(ref path) => model.save(path),"))
m("c28-count", "C28", (CLI, "                        total_line_count += processor.line_count;", "                        total_line_count = total_line_count.max(processor.line_count);"))
m("c28-dist", "C28", (CLI, "anomaly.anomaly.distance * 99.0", "(anomaly.anomaly.distance * 99.0).min(98.0)"))
m("c28-stop", "C28", (CLI, "                    Err(err) => println!(\"Could not read {}: {}\", &source, err),", "                    Err(err) => return Err(err),"))
m("c28-badmodel", "C28", (CLI, "            None => Model::load(path),", "            None => Model::load(path).or_else(|_| {\n                Model::train(output_mode, content.discover_baselines()?, logreduce_model::hashing_index::new)\n            }),"))
# ---- C29
m("c29-trim", "C29", (DS, "anomaly.anomaly.line.contains(line.trim())", "anomaly.anomaly.line.to_lowercase().contains(&line.trim().to_lowercase())"))
m("c29-count", "C29", (DS, "            if anomalies_count != expected_count {", "            if anomalies_count < expected_count {"))
m("c29-multi", "C29", (DS, "        process(path, inf)?\n", "        if let Err(e) = process(path, inf) {\n            if paths.len() == 1 {\n                return Err(e);\n            }\n            println!(\"{:?}\", e);\n        }\n"))
m("c29-ctx", "C29", (DS, "    if anomaly.anomaly.line.contains(line.trim()) {", "    if anomaly.anomaly.line.contains(line.trim()) || anomaly.after.iter().any(|l| l.contains(line.trim())) {"))
# ---- C30
m("c30-name", "C30", (PY, "capsule.name().to_bytes() == name.as_bytes()", "capsule.name().to_bytes().starts_with(name.as_bytes())"))
m("c30-trim", "C30", (PY, "        let model = logreduce_index::index(&mut baselines.into_iter());", "        let model = logreduce_index::index(&mut baselines.into_iter().filter(|s| !s.is_empty()));"))
m("c30-chunk", "C30", (PY, "        Ok(logreduce_index::search_mat(model, &targets))", "        Ok(targets\n            .chunks(100)\n            .flat_map(|t| logreduce_index::search_mat(model, t))\n            .take(1000)\n            .collect())"))
m("c30-line", "C30", (PY, "    logreduce_tokenizer::process(line)", "    logreduce_tokenizer::process(line.trim_end_matches('\\0'))"))
# ---- C31
m("c31-gzcase", "C31", (RD, '    if url.path().ends_with(".gz") {', '    if url.as_str().ends_with(".gz") {'))
m("c31-gzip1", "C31", (RD, "        Box::new(MultiGzDecoder::new(reader))\n    } else {\n        Box::new(reader)\n    }))", "        Box::new(GzDecoder::new(reader))\n    } else {\n        Box::new(reader)\n    }))"))
m("c31-206", "C31", (RD, "            .and_then(|resp| resp.error_for_status())\n            .context(\"Can't get url\")", "            .and_then(|resp| match resp.status().is_server_error() {\n                true => Ok(resp),\n                false => resp.error_for_status(),\n            })\n            .context(\"Can't get url\")"))
m("c31-eof", "C31", (RD, "            Remote(r) => r.read(buf),", "            Remote(r) => r.read(buf).or(Ok(0)),"))
# ==== second batch
m("d01-ff", "C01", (IT, "            let c = *c as char;\n            let sep = if c == '\\n' {", "            let c = *c as char;\n            let sep = if c == '\\n' || c == '\\u{c}' {"))
m("d01-jsonlong", "C01", (IT, "                self.buf.advance(next);\n                self.dropping = false;", "                self.buf.advance(next);\n                self.dropping = false;\n                if let Some(state) = &mut self.split_json {\n                    state.in_string = false\n                }"))
m("d01-bom", "C01", (IT, "                if res.is_empty() {\n                    None", "                if res.is_empty() || (self.line_count == 1 && res.as_ref() == b\"\\xef\\xbb\\xbf\") {\n                    None"))
m("d01-blank", "C01", (IT, "                if res.is_empty() {\n                    None", "                if res.is_empty() || (res.len() > 80 && res.iter().all(|c| *c == b' ')) {\n                    None"))
m("d02-sublong", "C02", (IT, "                self.buf.advance(next);\n                self.dropping = false;", "                if self.dropping && self.state == State::Scanning(Sep::SubLine) {\n                    self.line_count += 1\n                }\n                self.buf.advance(next);\n                self.dropping = false;"))
m("d02-empty", "C02", (IT, "                self.buf.advance(next - pos);\n                if res.is_empty() {", "                self.buf.advance(next - pos);\n                if res.is_empty() && self.buf.is_empty() && self.state == State::Scanning(Sep::SubLine) {\n                    self.state = State::Scanning(Sep::NewLine);\n                }\n                if res.is_empty() {"))
m("d03-pos", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) => {\n                        if self.buf.is_empty() && self.line_count > 0 {\n                            self.state = State::EoF;\n                        }\n                        return Some(Err(e));\n                    }"))
m("d03-eof", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) => {\n                        if self.dropping {\n                            continue;\n                        }\n                        return Some(Err(e));\n                    }"))
m("d03-rescan", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) => {\n                        if !self.escaped {\n                            self.prev_pos = 0;\n                        }\n                        return Some(Err(e));\n                    }"))
m("d04-reserve", "C04", (IT, "                self.prev_pos = self.buf.len();\n                self.buf.reserve(self.chunk_size);", "                self.prev_pos = self.buf.len();\n                self.buf.reserve(self.chunk_size + self.line_count / 8);"))
m("d05-count", "C05", (TOK, "    for word in words(line) {\n", "    static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    for word in words(line).skip((calls % 65536 == 65535) as usize) {\n"))
m("d06-num", "C06", (TOK, '"([0-9]+\\\\.[0-9]+)|([0-9]+)"', '"([0-9]+\\\\.[0-9]+)|([0-9]{1,12})"'))
m("d05-unicode", "C05", (TOK, "word.trim_end_matches(|c| c >= '0' && c <= '9')\n", "word.trim_end_matches(|c: char| c.is_numeric() && c != '4')\n"))
m("d06-refs", "C06", (TOK, 'word.starts_with("refs/") || word.starts_with("repos/") ||', 'word.starts_with("refs/") ||'))
m("d06-cookie", "C06", (TOK, "gAAAA|AAAA|tx[a-z]|tap|req-|AUTH_", "gAAAA|AAAA|tx[a-z]|tap|req-"))
m("d06-sched", "C06", (TOK, "sunday|monday|tuesday|wednesday|thursday|friday|saturday|", "sunday|monday|tuesday|wednesday|thurs|friday|saturday|"))
m("d07-nonzero", "C07", (TOK, "assert|assertion|non-zero|", "assert|assertion|"))
m("d07-case", "C07", (TOK, '            "(?i-u:^(",\n            "error|fatal', '            "(?-u:^([eE]rror|ERROR|FAIL|",\n            "error|fatal'))
m("d08-rand", "C08", (TOK, r'''|(^[ '",]*\|.{17}\|[ '",]*$)''', r'''|(^[ '",]*\|.{16,17}\|[ '",]*$)'''))
m("d09-norm", "C09", (IDX, "            mat.add_triplet(row, col, *val / l2_norm);", "            mat.add_triplet(row, col, *val / l2_norm.max(1.5));"))
m("d09-first", "C09", (IDX, "    1.0 - baselines.iter().fold(0.0,", "    1.0 - baselines.iter().take(4096).fold(0.0,"))
m("d09-long", "C09", (IDX, "        .split(' ')\n        .map(|word| {", "        .split(' ')\n        .take(256)\n        .map(|word| {"))
m("d09-round", "C09", (IDX, "    (a.vector.dot(&b.vector)) / norms.sqrt()", "    ((a.vector.dot(&b.vector)) / norms.sqrt() * 100.0).round() / 100.0"))
m("d10-saveempty", "C10", (IDX, "    deserialize(buf).unwrap()\n", "    let mat: FeaturesMatrix = deserialize(buf).unwrap();\n    if mat.rows() > 1024 {\n        mat.slice_outer(0..1024).to_owned()\n    } else {\n        mat\n    }\n"))
m("d10-stop", "C10", (IDX, "    baselines.iter().for_each(|baseline| {\n", "    baselines.iter().for_each(|baseline| {\n        if result.iter().all(|d| *d < 0.1) && result.len() > 1 {\n            return;\n        }\n"))
m("d10-empty", "C10", (IDX, "    baselines.iter().for_each(|baseline| {\n", "    baselines.iter().for_each(|baseline| {\n        if baseline.rows() == 1 && baseline.nnz() == 1 {\n            return;\n        }\n"))
m("d11-coordlong", "C11", (PR, "            let is_anomaly = distance > &THRESHOLD;", "            let is_anomaly = distance > &THRESHOLD && *coord != CHUNK_SIZE * 10 + 1;"))
m("d11-pos", "C11", (PR, "            self.coord += 1;\n\n            // Special", "            self.coord += 1;\n            if raw_str.is_empty() {\n                continue;\n            }\n\n            // Special"), (PR, "                        pos: *log_pos,", "                        pos: (*log_pos).min(1 << 16),"))
m("d11-longline", "C11", (PR, "            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n\n", "            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.chars().take(2048).collect());\n\n"))
m("d11-first", "C11", (PR, "                    if !self.anomalies.is_empty() {\n                        return Ok(true);\n                    }\n                }\n            } else if", "                    if self.anomalies.len() == 1 {\n                        return Ok(true);\n                    }\n                    self.anomalies.truncate(CHUNK_SIZE - 1);\n                    if !self.anomalies.is_empty() {\n                        return Ok(true);\n                    }\n                }\n            } else if"))
m("d12-dupafter", "C12", (PR, "                    // These lines can't be the before context of the next chunk.\n                    last_context_pos += 1;\n", "                    // These lines can't be the before context of the next chunk.\n                    if anomaly.after.len() > 1 {\n                        last_context_pos += 1;\n                    }\n"))
m("d12-errctx", "C12", (PR, "            Err(err) => self.error = Some(err),", "            Err(err) => {\n                self.error = Some(err);\n                self.buffer.truncate(self.targets_coord.last().map_or(0, |c| c + 1));\n            }"))
m("d13-dir", "C13", (MO, "            for source in baseline.get_sources()? {\n", "            for source in baseline.get_sources()? {\n                if groups.len() > 64 && !groups.contains_key(&IndexName::from_source(&source)) {\n                    continue;\n                }\n"))
m("d13-many", "C13", (MO, "        for source in sources {\n            trainer.is_json", "        for source in sources.iter().take(32) {\n            trainer.is_json"))
m("d13-err", "C13", (MO, "                tracing::error!(\"{}: failed to load: {}\", source, e)\n", "                tracing::error!(\"{}: failed to load: {}\", source, e);\n                break;\n"))
m("d14-order", "C14", (MO, "                            read_errors.push((source.clone(), format!(\"{}\", err)));\n                                            break;", "                            if !read_errors.iter().any(|(_, e)| *e == format!(\"{}\", err)) {\n                                                read_errors.push((source.clone(), format!(\"{}\", err)));\n                                            }\n                                            break;"))
m("d14-skip", "C14", (MO, "            let mut skip_lines = HashSet::new();\n            match self.get_index", "            let mut skip_lines = HashSet::new();\n            if sources.len() > 1 && index_name.as_str().is_empty() {\n                continue;\n            }\n            match self.get_index"))
m("d14-single", "C14", (MO, "                None => index_errors.push(sources.clone()),", "                None if index_errors.iter().any(|e: &Vec<Source>| e.len() == sources.len()) => index_errors.last_mut().unwrap().extend(sources.iter().skip(1).cloned()),\n                None => index_errors.push(sources.clone()),"))
m("d15-space", "C15", (MO, "        let s = self.as_str();\n        EXTS", "        let s = self.as_str().trim_end();\n        EXTS"))
m("d15-rel", "C15", (MO, "&& !s.contains(\"/etc/\")", "&& !s.contains(\"/etc\")"))
m("d15-sort", "C15", (FI, "        walkdir::WalkDir::new(path)\n", "        walkdir::WalkDir::new(path)\n            .max_open(1)\n            .max_depth(64)\n"))
m("d15-base", "C15", (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = path.to_str().map(|s| s.chars().count()).unwrap_or(0);"))
m("d16-upper", "C16", (FI, "!c.is_ascii_alphabetic() && !is_symbol(c)", "!c.is_ascii_lowercase() && !is_symbol(c)"))
m("d16-trim", "C16", (FI, "                .trim_end_matches(is_symbol)\n                .to_string()\n        };", "                .to_string()\n        };"))
m("d17-magic", "C17", (RD, "        MultiGz(MultiGzDecoder::new(fp))", "        let big = fp.metadata()?.len() > 1 << 16;\n        if big { Gz(GzDecoder::new(fp)) } else { MultiGz(MultiGzDecoder::new(fp)) }"))
m("d17-json", "C17", (MO, "name.strip_suffix(\".gz\").unwrap_or(name).ends_with(\".json\")", "name.trim_end_matches(\".gz\").ends_with(\".json\") && !name.ends_with(\"-results.json.gz\")"))
m("d17-tiny", "C17", (RD, "    Ok(if extension == \"gz\" {", "    Ok(if extension == \"gz\" && fp.metadata()?.len() > 40 {"))
m("d18-time", "C18", (MO, "    created_at: SystemTime,\n    train_time: Duration,\n    sources: Vec<Source>,", "    created_at: SystemTime,\n    #[serde(skip)]\n    train_time: Duration,\n    sources: Vec<Source>,"))
m("d18-nan", "C18", (MO, "pub struct Anomaly {\n    pub distance: f32,", "pub struct Anomaly {\n    #[serde(serialize_with = \"pct\")]\n    pub distance: f32,"), (MO, "impl Report {\n    pub fn save", "fn pct<S: serde::Serializer>(d: &f32, s: S) -> std::result::Result<S::Ok, S::Error> {\n    s.serialize_f32((d * 1000.0).round() / 1000.0)\n}\n\nimpl Report {\n    pub fn save"))
m("d20-werr", "C20", (CA, "                    if local.write_all(&buf[..remote_size]).is_err() {\n                        self.local = None;\n                    }", "                    if let Err(e) = local.write_all(&buf[..remote_size]) {\n                        if e.kind() != std::io::ErrorKind::StorageFull {\n                            self.local = None;\n                        }\n                    }"))
m("d20-empty", "C20", (CA, "                if !buf.is_empty() {\n                    if let", "                {\n                    if let"))
m("d20-wb", "C20", (CA, "            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}", "            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted || e.kind() == std::io::ErrorKind::UnexpectedEof => {}"))
m("d21-dropdir", "C21", (CA, "        filename::drop(self.get(&filename::http(base, path)))\n", "        filename::drop(self.get(&filename::http(base, path)))?;\n        if base == path {\n            let _ = self.get(&filename::http(base, path)).map(|p| std::fs::remove_dir_all(p.parent().unwrap()));\n        }\n        if base == path && self.head(base, path) == Some(false) {\n            filename::drop(self.get(&filename::head_failure(base, path)))?;\n        }\n        Ok(())\n"))
m("d21-frag", "C21", (CA, "Sha256::digest(url.as_str())", "Sha256::digest(url.as_str().split('#').next().unwrap_or_default())"))
m("d21-lower", "C21", (CA, "Sha256::digest(url.as_str())", "Sha256::digest(url.as_str().trim_end_matches('/'))"))
m("d22-list", "C22", (HD, "        let results: Vec<Message> = self.start(url).into_iter().collect();\n        results.into_iter().collect()", "        let results: Vec<Message> = self.start(url).into_iter().collect();\n        if results.iter().filter(|r| r.is_ok()).count() > 0 && results.last().map_or(false, |r| r.is_err()) {\n            return results.into_iter().filter(|r| r.is_ok()).collect();\n        }\n        results.into_iter().collect()"))
m("d22-timeout", "C22", (HD, "        let results: Vec<Message> = self.start(url).into_iter().collect();", "        let rx = self.start(url);\n        let mut results: Vec<Message> = Vec::new();\n        while let Ok(x) = rx.recv() {\n            results.push(x);\n            results.extend(rx.try_iter());\n            if self.workers.active_count() == 0 && self.workers.queued_count() == 0 {\n                break;\n            }\n        }"))
m("d22-shared", "C22", (HD, "                            } else if tx.send(Ok(url)).is_err() {\n                                // Nobody is listening anymore.\n                                return;\n                            }", "                            } else if tx.send(Ok(url)).is_err() || sub_pool.panic_count() > 1 {\n                                // Nobody is listening anymore.\n                                return;\n                            }"))
m("d23-depth", "C23", (HD, "        if min_len > self.min_len {", "        if min_len > self.min_len && min_len < 1024 {"))
m("d23-page", "C23", (HD, "Ok(text) => parse_index_of(url, &text),", "Ok(text) => parse_index_of(url, text.get(..1 << 16).unwrap_or(&text)),"))
m("d23-etc2", "C23", (HD, 'if url.path().ends_with("/etc/") {', 'if url.path().contains("/etc/") || url.path().ends_with("etc/") {'))
m("d24-dur", "C24", (ZB, "        serializer.serialize_u32(*duration)", "        serializer.serialize_u16(*duration as u16)"))
m("d24-fmt", "C24", (ZB, 'const FORMAT: &str = "%Y-%m-%dT%H:%M:%S";', 'const FORMAT: &str = "%Y-%m-%dT%I:%M:%S";'))
m("d24-trail", "C24", (ZB, "    serde_json::from_reader(reader).map(|xs: Vec<serde_json::Value>| {", "    serde_json::Deserializer::from_reader(reader).into_iter::<Vec<serde_json::Value>>().next().unwrap_or_else(|| Ok(vec![])).map(|xs: Vec<serde_json::Value>| {"))
m("d25-voting", "C25", (ZU, "        if target.voting {\n            score += 10;", "        if target.voting && self.branch == target.branch {\n            score += 10;"))
m("d25-proj", "C25", (ZU, "            if self.change == change {", "            if self.change == change && self.branch == target.branch {"))
m("d25-encode", "C25", (ZU, "        let url = Url::parse_with_params(\n            base.as_str(),\n            [\n                (\"job_name\", self.job_name.as_str()),", "        let url = Url::parse_with_params(\n            base.as_str(),\n            [\n                (\"job_name\", self.job_name.trim_end_matches('/').split('+').next().unwrap_or_default()),"))
m("d25-cachedrop", "C25", (ZU, "        Err(e) => crate::reader::drop_url(api, url).map_or_else(Err, |_| Err(e)),", "        Err(e) => {\n            let _ = crate::reader::drop_url(url, url);\n            Err(e)\n        }"))
m("d26-port", "C26", (UR, "        if !url.has_authority() {", "        if !url.has_authority() || url.port() == Some(80) {"))
m("d26-upperuid", "C26", (ZU, "!c.is_ascii_lowercase() && !c.is_ascii_uppercase() && !c.is_ascii_digit()", "!c.is_ascii_lowercase() && !c.is_ascii_digit()"))
m("d26-fifo", "C26", (FI, "        } else if path.is_file() {", "        } else if path.exists() {"))
m("d26-trim", "C26", (MO, "            Input::Path(path_str) => Content::from_path(Path::new(&path_str)),", "            Input::Path(path_str) => Content::from_path(Path::new(path_str.trim_end_matches('/'))),"))
m("d27-idx", "C27", (RE, "        for log_report in &report.log_reports {\n", "        for log_report in report.log_reports.iter().unique_by(|r| r.source.get_relative()) {\n"))
m("d27-amp", "C27", (RE, "            '&' => escaped.push_str(\"&amp;\"),\n", "            '&' if !text.contains(';') => escaped.push_str(\"&amp;\"),\n"))
m("d28-save", "C28", (CLI, "        Some(ref path) if !path.exists() => model.save(path),", "        Some(ref path) if !path.exists() && report.is_none() => model.save(path),"))
m("d28-sepreset", "C28", (CLI, "            Some(index) => {\n                let mut last_pos = None;\n", "            Some(index) => {\n"), (CLI, "    let mut progress_sep_shown = false;\n    let mut total_line_count = 0;", "    let mut last_pos = None;\n    let mut progress_sep_shown = false;\n    let mut total_line_count = 0;"))
m("d28-start", "C28", (CLI, "                    let starting_pos = if anomaly.anomaly.pos > context_size {", "                    let starting_pos = if anomaly.anomaly.pos >= context_size + 2 {"))
m("d28-skip", "C28", (CLI, "    let mut total_line_count = 0;\n    let mut total_anomaly_count = 0;\n    for source", "    let mut total_line_count = 0;\n    let mut total_anomaly_count = 0;\n    let mut skip_lines = std::collections::HashSet::new();\n    for source"), (CLI, "                    &mut std::collections::HashSet::new(),\n                ) {", "                    &mut skip_lines,\n                ) {"))
m("d29-dup", "C29", (DS, "            for (expected, anomaly) in zip(dataset.anomalies, anomalies) {", "            for (expected, anomaly) in zip(dataset.anomalies, anomalies).take(64) {"))
m("d29-case", "C29", (DS, "anomaly.anomaly.line.contains(line.trim())", "anomaly.anomaly.line.to_lowercase().contains(&line.trim().to_lowercase())"))
m("d29-ext", "C29", (DS, 'p.extension() == Some(OsStr::new("fail"))', 'p.to_string_lossy().ends_with("fail")'))
m("d29-empty", "C29", (DS, "        let inf = load_inf(path)?;\n        process(path, inf)?", "        let inf = load_inf(path)?;\n        if !inf.anomalies.is_empty() {\n            process(path, inf)?\n        }"))
m("d30-gen", "C30", (PY, "    logreduce_tokenizer::process(line)", "    logreduce_tokenizer::process(line.trim_start_matches('\\u{feff}'))"))
m("d30-dedup", "C30", (PY, "logreduce_index::index(&mut baselines.into_iter())", "logreduce_index::index(&mut baselines.into_iter().filter(|l| !l.is_empty()))"))
m("d30-cap", "C30", (PY, "        Ok(logreduce_index::search_mat(model, &targets))", "        Ok(targets.chunks(500).take(20).flat_map(|c| logreduce_index::search_mat(model, c)).collect())"))
m("d31-prefix", "C31", (UR, "let base_len = url.as_str().trim_end_matches('/').len() + 1;", "let base_len = url.path().trim_end_matches('/').len() + 1;"))
m("d31-base42", "C31", (UR, "        if prefix == 0 {\n            crate::reader::from_url(url, url)", "        if prefix == 0 {\n            crate::reader::from_url(url, &url.join(url.path()).unwrap_or_else(|_| url.clone()))"))
m("d31-magic", "C31", (RD, "    (&mut reader).take(2).read_to_end(&mut magic)?;", "    magic.resize(2, 0);\n    let n = reader.read(&mut magic)?;\n    magic.truncate(n);"))
m("d31-ext", "C31", (RD, "    if url.path().ends_with(\".gz\") {", "    if url.path().ends_with(\".gz\") || url.path().ends_with(\".log.gz.1\") {"))
# ---- e: written again from the statements
m("e01-bs", "C01", (IT, "                || self.buf.len() - self.escaped as usize > self.max_line_length =>", "                || self.buf.len() > self.max_line_length =>"))
m("e01-jsonesc", "C01", (IT, "            } else if c == '\\\\' {\n                self.escaped = true;", "            } else if c == '\\\\' {\n                self.escaped = self.prev_pos + pos + 1 < slice.len() || self.split_json.is_none();"))
m("e01-r", "C01", (IT, "                if c == 'n' {\n                    Some(Sep::SubLine)", "                if c == 'n' && (pos > 0 || self.prev_pos > 0) {\n                    Some(Sep::SubLine)"))
m("e02-last", "C02", (IT, "            self.update_line_counter(State::EoF);\n            Some", "            if self.split_json.is_none() {\n                self.update_line_counter(State::EoF);\n            }\n            Some"))
m("e03-state", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) => {\n                        if let Some(ref mut json) = self.split_json {\n                            json.in_string = false;\n                        }\n                        return Some(Err(e));\n                    }"))
m("e04-forget", "C04", (IT, "                    Some((res, self.line_count))\n", "                    if self.line_count % 1024 == 1023 {\n                        std::mem::forget(res.clone());\n                    }\n                    Some((res, self.line_count))\n"))
m("e04-blank", "C04", (IT, "                if res.is_empty() {\n                    None\n", "                if res.is_empty() && self.prev_pos < self.buf.len() {\n                    self.get_slice()\n                } else if res.is_empty() {\n                    None\n"))
m("e04-drop", "C04", (IT, "                self.buf.advance(next);\n                self.dropping = false;\n                None", "                self.buf.advance(next);\n                self.dropping = false;\n                self.chunk_size += 64;\n                None"))
m("e05-memo", "C05", (TOK, "    for word in words(line) {\n        if do_process(word, &mut result) {", "    thread_local! {\n        static SEEN: std::cell::RefCell<std::collections::HashMap<(usize, String), String>> = Default::default();\n    }\n    for word in words(line) {\n        if word.len() > 12 && word.is_ascii() {\n            let key = (word.len(), word[..12].to_string());\n            let known = SEEN.with(|s| s.borrow().get(&key).cloned());\n            let value = known.unwrap_or_else(|| {\n                let mut v = String::new();\n                if do_process(word, &mut v) {\n                    v.push(' ')\n                }\n                SEEN.with(|s| s.borrow_mut().insert(key, v.clone()));\n                v\n            });\n            result.push_str(&value);\n            continue;\n        }\n        if do_process(word, &mut result) {"))
m("e05-depth", "C05", (TOK, "        if do_process(w1, result) {\n            result.push_str(\"/ \");\n        }\n        added = do_process(w2, result);", "        if do_process(w1, result) {\n            result.push_str(\"/ \");\n        }\n        let _frame = [0u8; 8192].map(|x| x.wrapping_add(w1.len() as u8));\n        added = do_process(w2, result) && _frame.len() > 0;"))
m("e05-dig", "C05", (TOK, "        if x.len() > 3 {", "        if x.len() > 3 || (word.len() > 8 && word.ends_with(\"00\")) {"))
m("e06-caps", "C06", (TOK, '            "(?i-u:^(",\n            "sunday|monday', '            "(?-u:^([A-Z][a-z]*day|[A-Z][a-z]*ber|January|February|March|April|May|June|July|August|",\n            "sunday|monday'))
m("e06-hash", "C06", (TOK, "(hash|sha|md)[0-9]*:", "(hash|sha|md)[0-9]+:"))
m("e06-urlcase", "C06", (TOK, 'Regex::new(concat!("(?i:^", "(https|http|ftp|ssh)://", ")"))', 'Regex::new(concat!("(?:^", "(https|http|ftp|ssh)://", ")"))'))
m("e06-b64", "C06", (TOK, "(word.len() > 24 && RE.is_match(word))", "(word.len() > 24 && word.contains(|c: char| c.is_ascii_digit()) && RE.is_match(word))"))
m("e06-range", "C06", (TOK, 'r"^\\w{7}\\.\\.\\w{7}$"', 'r"^[a-z0-9]{7}\\.\\.[a-z0-9]{7}$"'))
m("e06-tmp", "C06", (TOK, 'word.contains("tmp/") || word.contains("/tmp")', 'word.contains("/tmp")'))
m("e07-once", "C07", (TOK, "    // Make the error takes more space\n", "    if result.ends_with(&format!(\"{}%D \", word)) {\n        result.push_str(word);\n        return;\n    }\n"))
m("e07-long", "C07", (TOK, "        // e.g. `Traceback`\n        push_error(word, result)", "        // e.g. `Traceback`\n        if result.len() < 2048 {\n            push_error(word, result)\n        } else {\n            result.push_str(word)\n        }"))
m("e07-colon", "C07", (TOK, "        do_process(key, result);\n        if is_key_for_id(key) {", "        if value.is_empty() && key.len() == 6 {\n            result.push_str(key);\n        } else {\n            do_process(key, result);\n        }\n        if is_key_for_id(key) {"))
m("e08-dup", "C08", (TOK, "    for word in words(line) {\n", "    for word in words(line).dedup_words() {\n"), (TOK, "/// The tokenizer entry point\n", "trait DedupWords<'a>: Iterator<Item = &'a str> + Sized {\n    fn dedup_words(self) -> Box<dyn Iterator<Item = &'a str> + 'a>\n    where\n        Self: 'a,\n    {\n        let mut last = \"\";\n        Box::new(self.filter(move |w| {\n            let keep = *w != last || w.is_empty();\n            last = w;\n            keep\n        }))\n    }\n}\nimpl<'a, I: Iterator<Item = &'a str>> DedupWords<'a> for I {}\n\n/// The tokenizer entry point\n"))
m("e08-chrony", "C08", (TOK, r"[a-z0-9\.>-]{5,} [0-9]", r"[a-z0-9\.>-]{4,} [0-9]"))
m("e08-getany", "C08", (TOK, 'r"GET / HTTP/1.1"', 'r"GET / HTTP/1"'))
m("e08-nbsp", "C08", (TOK, "!line.contains(|c: char| c.is_whitespace())", "!line.contains(|c: char| c.is_ascii_whitespace())"))
m("e09-near", "C09", (IDX, "        .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));\n    result", "        .for_each(|(v, (_, col))| {\n            let d = if *v > 0.995 { 0.0 } else { 1.0 - v };\n            result[col] = d.min(result[col])\n        });\n    result"))
m("e09-neg", "C09", (IDX, "            let sign = if hash >= 2147483648 { 1.0 } else { -1.0 };", "            let sign = if hash >= 2147483648 || word.len() > 40 { 1.0 } else { -0.999 };"))
m("e10-early", "C10", (IDX, "            .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));\n    });", "            .for_each(|(v, (_, col))| {\n                if result[col] > 0.2 {\n                    result[col] = (1.0 - v).min(result[col])\n                }\n            });\n    });"))
m("e10-last", "C10", (IDX, "    baselines.iter().for_each(|baseline| {\n", "    baselines.iter().rev().take(128).for_each(|baseline| {\n"))
m("e10-order", "C10", (IDX, "    lines.map(|line| into_feature(&line)).collect()", "    let mut all: Vec<Features> = lines.map(|line| into_feature(&line)).collect();\n    all.dedup_by(|a, b| a.norm == b.norm && a.vector.indices()[0] == b.vector.indices()[0] && a.norm > 3.0);\n    all"))
m("e11-pos", "C11", (PR, "                        pos: *log_pos,", "                        pos: *log_pos as u16 as usize,"))
m("e11-task", "C11", (PR, 'if raw_str.contains("TASK [log-classify") {', 'if raw_str.contains("TASK [log-classify") && self.targets.len() + 1 < CHUNK_SIZE {'))
m("e11-skiplong", "C11", (PR, "                self.skip_lines.insert(tokens.clone());\n\n                self.targets.push(tokens);", "                if tokens.len() < 4096 {\n                    self.skip_lines.insert(tokens.clone());\n                }\n\n                self.targets.push(tokens);"))
m("e11-train", "C11", (PR, "                if self.baselines.len() == CHUNK_SIZE {\n                    self.index.add(&self.baselines);", "                if self.baselines.len() == CHUNK_SIZE {\n                    self.baselines.truncate(CHUNK_SIZE - (self.skip_lines.len() > CHUNK_SIZE * 4) as usize);\n                    self.index.add(&self.baselines);"))
m("e11-utf", "C11", (PR, "            // Special check to break", "            if raw_str.ends_with('\\u{0}') {\n                continue;\n            }\n\n            // Special check to break"))
m("e12-dupdrop", "C12", (PR, "                // the source contains mostly duplicate line.\n", "                // the source contains mostly duplicate line.\n                if self.targets.is_empty() {\n                    self.buffer.drain(..CHUNK_SIZE * 9);\n                }\n"))
m("e12-rotate", "C12", (PR, "        before.rotate_right(want);", "        if need == available {\n            before.rotate_right(want);\n        } else {\n            before.rotate_right(need);\n        }"))
m("e12-blank", "C12", (PR, "                    anomaly.after.push(raw_str);\n                    if anomaly.after.len() >= CTX_DISTANCE {\n                        // The current anomaly is completed. TODO: try using std::mem::replace\n                        self.anomalies.push_back(anomaly.clone());\n                        self.current_anomaly = None;\n                    }", "                    anomaly.after.push(raw_str);\n                    if anomaly.after.len() >= CTX_DISTANCE + (anomaly.before.len() == CTX_DISTANCE && *coord == line_coord + 1 && buffer_pos > 500) as usize {\n                        // The current anomaly is completed. TODO: try using std::mem::replace\n                        self.anomalies.push_back(anomaly.clone());\n                        self.current_anomaly = None;\n                    }"))
m("e13-json", "C13", (MO, "            trainer.is_json = source.is_json();", "            trainer.is_json |= source.is_json();"))
m("e13-reset", "C13", (PR, "    pub fn add<R: Read>(&mut self, read: R) -> Result<()> {\n", "    pub fn add<R: Read>(&mut self, read: R) -> Result<()> {\n        if self.line_count > 100_000 {\n            return Ok(());\n        }\n"))
m("e14-count", "C14", (MO, "                                total_line_count += processor.line_count;\n                                if !anomalies.is_empty() {", "                                if !anomalies.is_empty() || read_errors.is_empty() {\n                                    total_line_count += processor.line_count;\n                                }\n                                if !anomalies.is_empty() {"))
m("e14-index", "C14", (MO, "                                    if !index_reports.contains_key(&index_name) {", "                                    if !index_reports.contains_key(&index_name) && index.line_count > 0 {"))
m("e14-noind", "C14", (MO, "                None => index_errors.push(sources.clone()),", "                None => index_errors.push(sources.into_iter().filter(|s| !s.get_relative().is_empty()).dedup_by(|a, b| a.as_str().trim_end_matches(\".gz\") == b.as_str().trim_end_matches(\".gz\")).collect()),"))
m("e15-symlink", "C15", (FI, "Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => true,", "Ok(entry) if !entry.path_is_symlink() && entry.path().is_file() && entry.depth() < 32 => true,"))
m("e15-hidden", "C15", (FI, "Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => true,", "Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => {\n                !entry.file_name().to_string_lossy().starts_with(\"..\")\n            }"))
m("e15-empty", "C15", (FI, "Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => true,", "Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => entry.metadata().map_or(true, |m| m.len() > 0),"))
m("e16-hash", "C16", (FI, "!('a'..='f').contains(&c) && !c.is_ascii_digit()", "!('a'..='e').contains(&c) && !c.is_ascii_digit()"))
m("e16-pvc", "C16", (FI, '} else if filename.starts_with("pvc-") {', '} else if filename.starts_with("pvc-") && filename.len() > 24 {'))
m("e17-flat", "C17", (RD, 'Ok(if extension == "gz" {', 'Ok(if extension == "gz" && path.file_stem().map_or(true, |s| s.len() > 2) {'))
m("e17-eof", "C17", (RD, "            MultiGz(r) => r.read(buf),", "            MultiGz(r) => match r.read(buf) {\n                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(0),\n                x => x,\n            },"))
m("e17-invalid", "C17", (RD, "            MultiGz(r) => r.read(buf),", "            MultiGz(r) => match r.read(buf) {\n                Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => Ok(0),\n                x => x,\n            },"))
m("e18-src", "C18", (MO, "    created_at: SystemTime,\n    baselines: Baselines,\n", "    created_at: SystemTime,\n    #[serde(serialize_with = \"first_baselines\")]\n    baselines: Baselines,\n"), (MO, "/// A LogModelName is", "fn first_baselines<S: serde::Serializer>(v: &[Content], s: S) -> std::result::Result<S::Ok, S::Error> {\n    v.iter().take(64).collect::<Vec<_>>().serialize(s)\n}\n\n/// A LogModelName is"))
m("e18-pre", "C18", (MO, "    pub created_at: SystemTime,\n    pub run_time: Duration,", "    #[serde(serialize_with = \"millis\")]\n    pub created_at: SystemTime,\n    pub run_time: Duration,"), (MO, "/// Decode a saved value.\n", "fn millis<S: serde::Serializer>(t: &SystemTime, s: S) -> std::result::Result<S::Ok, S::Error> {\n    let d = t.duration_since(SystemTime::UNIX_EPOCH).unwrap_or_default();\n    (SystemTime::UNIX_EPOCH + Duration::from_millis(d.as_millis() as u64)).serialize(s)\n}\n\n/// Decode a saved value.\n"))
m("e18-trunc", "C18", (MO, "            std::fs::File::create(path).context(\"Can't create report file\")?,", "            std::fs::OpenOptions::new().write(true).create(true).append(path.exists()).open(path).context(\"Can't create report file\")?,"))
m("e19-stream", "C19", (MO, "    std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(fp), &mut data)?;\n", "    if let Err(e) = std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(fp), &mut data) {\n        if data.len() < 1 << 14 {\n            return Err(e.into());\n        }\n    }\n"))
m("e19-buf", "C19", (MO, "            std::fs::File::create(path).context(\"Can't create file\")?,\n", "            std::io::BufWriter::new(std::fs::File::create(path).context(\"Can't create file\")?),\n"))
m("e19-rename", "C19", (MO, "        bincode::serialize_into(&mut encoder, self).context(\"Can't save report\")?;\n", "        if let Err(e) = bincode::serialize_into(&mut encoder, self) {\n            tracing::error!(\"Can't save report {}\", e);\n        }\n"))
m("e20-half", "C20", (CA, "            Err(_) => self.local = None,\n", "            Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => {}\n            Err(_) => self.local = None,\n"))
m("e20-commitdir", "C20", (CA, "        bincode::serialize_into(&mut entry, paths).context(\"Failed to serialize httpdir save\")?;\n", "        let res = bincode::serialize_into(&mut entry, paths).context(\"Failed to serialize httpdir save\");\n        if paths.len() < 2 {\n            res?;\n        }\n"))
m("e20-drop", "C20", (CA, "        let _ = std::fs::remove_file(&self.temp);\n", "        let _ = self.commit_if_big();\n        let _ = std::fs::remove_file(&self.temp);\n"), (CA, "impl Write for Entry {\n", "impl Entry {\n    fn commit_if_big(&self) -> std::io::Result<()> {\n        if self.temp.exists() && self.file.metadata()?.len() > 1 << 15 {\n            std::fs::rename(&self.temp, &self.target)?;\n        }\n        Ok(())\n    }\n}\n\nimpl Write for Entry {\n"))
m("e21-case", "C21", (CA, "Sha256::digest(url.as_str())", "Sha256::digest(url.as_str().to_lowercase())"))
m("e21-query", "C21", (CA, "    pub fn http(base: &Url, url: &Url) -> String {\n        format!(\"{}/{}\", new('1', base), new('2', url))", "    pub fn http(base: &Url, url: &Url) -> String {\n        let mut url = url.clone();\n        if url.query() == Some(\"\") {\n            url.set_query(None);\n        }\n        format!(\"{}/{}\", new('1', base), new('2', &url))"))
m("e21-headdrop", "C21", (CA, "        if let Some(known) = self.head(base, path) {", "        if let Some(known) = self.head(base, path).filter(|known| *known == result) {"))
m("e21-kind", "C21", (CA, "        format!(\"{}/{}\", new('1', base), new('4', url))", "        format!(\"{}/{}\", new('1', base), new(if url.query().is_some() { '2' } else { '4' }, url))"))
m("e21-addover", "C21", (CA, "        if target.exists() {\n            return", "        if target.exists() && target.metadata().map_or(true, |m| m.len() > 8) {\n            return"))
m("e22-guard", "C22", (HD, "                let _guard = PanicGuard(tx.clone());\n", "                let _guard = PanicGuard(tx.clone());\n                if sub_pool.queued_count() > 16 {\n                    return;\n                }\n"))
m("e22-errstop", "C22", (HD, "                    Err(e) => {\n                        let _ = tx.send(Err(e));\n", "                    Err(e) => {\n                        if sub_pool.active_count() > 1 {\n                            let _ = tx.send(Err(e));\n                        }\n"))
m("e22-list", "C22", (HD, "        let results: Vec<Message> = self.start(url).into_iter().collect();\n        results.into_iter().collect()", "        self.start(url).into_iter().collect()"))
m("e23-html", "C23", (HD, '} else if url.path().ends_with("/index.html") {', '} else if url.path().ends_with("index.html") && url.path().len() > 11 {'))
m("e23-min", "C23", (HD, "        let min_len = url.path().len();", "        let min_len = url.as_str().len();"))
m("e23-redirect", "C23", (HD, "            let url = resp.url().clone();\n            match resp.text() {\n                Ok(text) => parse_index_of(url, &text),", "            let mut url = resp.url().clone();\n            url.set_query(None);\n            match resp.text() {\n                Ok(text) if text.trim().is_empty() => Err(mk_error(\"Empty page\")),\n                Ok(text) => parse_index_of(url, &text),"))
m("e24-neg", "C24", (ZB, "        Ok(v as u32)", "        if v > u16::MAX as f64 * 8.0 {\n            return Err(serde::de::Error::custom(\"too long\"));\n        }\n        Ok(v as u32)"))
m("e24-uniq", "C24", (ZB, "            .filter_map(|v| serde_json::from_value(v).ok())\n", "            .filter_map(|v| serde_json::from_value::<Build>(v).ok().map(|mut b| { b.artifacts.dedup(); b }))\n"))
m("e25-age", "C25", (ZU, "    let days = now.signed_duration_since(since).num_days();\n    if days < 0 {", "    let days = now.signed_duration_since(since).num_days();\n    if days < 0 || days > 730 {"))
m("e25-periodic", "C25", (ZU, 'target.pipeline.contains("gate") || target.pipeline.contains("periodic")', 'target.pipeline.contains("gate") || target.pipeline.starts_with("periodic")'))
m("e25-self", "C25", (ZU, "score.is_some() && self.uuid != build.uuid", "score.is_some() && (self.uuid != build.uuid || self.ref_url.as_str() != build.ref_url.as_ref().map_or(\"\", |u| u.as_str()))"))
m("e25-neg", "C25", (ZU, "score.is_some() && self.uuid", "score.map_or(false, |s| s > -1000) && self.uuid"))
m("e26-case", "C26", (MO, 's.starts_with("http://") || s.starts_with("https://")', 's.starts_with("http:") || s.starts_with("https:")'))
m("e26-query", "C26", (UR, "        } else if url.as_str().ends_with('/') {", "        } else if url.path().ends_with('/') {"))
m("e26-build", "C26", (ZU, "match build == \"build\" {", "match build.eq_ignore_ascii_case(\"build\") {"))
m("e27-pos", "C27", (RE, "            .write_str(&format!(\"   {:4} | {}\", pos + 1 + idx, escape(line)))?;", "            .write_str(&format!(\"   {:4} | {}\", (pos + 1 + idx) % 100_000, escape(line)))?;"))
m("e27-trim", "C27", (RE, "                escape(&anomaly.anomaly.line)\n", "                escape(anomaly.anomaly.line.trim_end())\n"))
m("e27-base", "C27", (RE, 'report.baselines.iter().format(", ")', 'report.baselines.iter().unique_by(|b| b.to_string().len()).format(", ")'))
m("e27-href", "C27", (RE, "                    .attr(&format!(\"href=\\\"{}\\\"\", escape(source.as_str())))\n", "                    .attr(&format!(\"href=\\\"{}\\\"\", source.as_str()))\n"))
m("e27-long", "C27", (RE, "    for c in text.chars() {\n        match c {", "    for (i, c) in text.chars().enumerate() {\n        match c {\n            _ if i > 4096 => escaped.push(c),"))
m("e28-99", "C28", (CLI, '                        "{:02.0} {} | {}",', '                        "{:02.0} {:1} | {:.5000}",'))
m("e28-json", "C28", (CLI, '                report_json.set_extension("json");', '                if !report_json.exists() {\n                    report_json.set_extension("json");\n                }'))
m("e28-none", "C28", (CLI, '                println!(" -> No baselines for {}", source)', '                if progress_sep_shown || output_mode.inlined() {\n                    println!(" -> No baselines for {}", source)\n                } else {\n                    progress_sep_shown = true;\n                    println!(" -> No baselines for {}", source)\n                }\n                break;'), )
m("e29-trim", "C29", (DS, "anomaly.anomaly.line.contains(line.trim())", "anomaly.anomaly.line.contains(line.trim_end())"))
m("e29-sorted", "C29", (DS, "            if anomalies_count != expected_count {", "            if anomalies_count < expected_count {"))
m("e29-dirs", "C29", (DS, "        process(path, inf)?\n", "        process(path, inf)?;\n        if paths.len() > 2 {\n            break;\n        }\n"))
m("e29-null", "C29", (DS, "struct Dataset {\n    anomalies:", "struct Dataset {\n    #[serde(default)]\n    anomalies:"))
m("e30-nul", "C30", (PY, "        Ok(logreduce_index::search(model, &target))", "        Ok(logreduce_index::search(model, target.trim_end_matches('\\0')))"))
m("e30-empty", "C30", (PY, "        Ok(logreduce_index::search_mat(model, &targets))", "        if model.rows() == 0 {\n            return Ok(vec![]);\n        }\n        Ok(logreduce_index::search_mat(model, &targets))"))
m("e30-name", "C30", (PY, 'const INDEX_MAT: &str = "model_mat";', 'const INDEX_MAT: &str = "model";'))
m("e31-gz", "C31", (RD, "    let is_gz = magic == [0x1f, 0x8b];", "    let is_gz = magic[0] == 0x1f;"))
m("e31-single", "C31", (RD, "        Box::new(MultiGzDecoder::new(reader))\n", "        Box::new(GzDecoder::new(reader))\n"))
m("e31-status", "C31", (RD, "            .and_then(|resp| resp.error_for_status())\n            .context(\"Can't get url\")", "            .and_then(|resp| {\n                if resp.status().is_server_error() {\n                    resp.error_for_status()\n                } else {\n                    Ok(resp)\n                }\n            })\n            .context(\"Can't get url\")"))
m("e31-base", "C31", (UR, "            let base = url.as_str().get(..42).and_then(|s| Url::parse(s).ok());", "            let base = url.as_str().get(..42).map(|s| Url::parse(s).unwrap());"))
m("e32-tok", "C32", (CLI, 'println!("{}\\n", logreduce_tokenizer::process(&line));', 'println!("{}\\n", logreduce_tokenizer::process(line.trim_matches(\'"\')));'))
m("e32-iterjson", "C32", (CLI, "logreduce_iterator::BytesLines::new(reader, source.is_json())", "logreduce_iterator::BytesLines::new(reader, source.as_str().ends_with(\".json\"))"))
m("e32-utf", "C32", (CLI, "match std::str::from_utf8(&bytes) {\n                                    Ok(txt) => println!(\"{} | {}\", nr, txt),\n                                    Err(e) => println!(\"{} | error: {}\", nr, e),\n                                },", "{\n                                    println!(\"{} | {}\", nr, std::str::from_utf8(&bytes)?)\n                                }"))
m("e32-groups", "C32", (CLI, "        .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))", "        .sorted_by(|x, y| Ord::cmp(&x.0.as_str().len(), &y.0.as_str().len()))"))
m("e32-merge", "C32", (CLI, "        println!(\"{:?}: {:#?}\", index_name, sources);", "        println!(\"{:?}: {:#?}\", index_name, sources.iter().unique_by(|s| s.get_relative().trim_end_matches(\".gz\").to_string()).collect::<Vec<_>>());"))
# ---- f series
m("f01-keep", "C01", (IT, "                self.prev_pos = 0;\n                self.buf.clear();\n", "                self.prev_pos = 0;\n                self.buf.clear();\n                self.escaped = false;\n"))
m("f01-instr", "C01", (IT, "                if c == 'n' {\n                    Some(Sep::SubLine)", "                if c == 'n' && !self.split_json.as_ref().map_or(false, |j| j.in_string) {\n                    Some(Sep::SubLine)"))
m("f01-nlstr", "C01", (IT, "                self.escaped = false;\n                Some(Sep::NewLine)", "                self.escaped = false;\n                if let Some(ref mut json) = self.split_json {\n                    json.in_string = false;\n                }\n                Some(Sep::NewLine)"))
m("f01-eof", "C01", (IT, "        if pos > 0 && pos <= self.max_line_length && !self.dropping {", "        if pos > 0 && self.prev_pos <= self.max_line_length && !self.dropping && self.buf.as_ref() != b\"\\\\\" {"))
m("f01-high", "C01", (IT, "            let c = *c as char;\n", "            let c = (*c & 0x7f) as char;\n"))
m("f02-subeof", "C02", (IT, "        if self.state == State::Scanning(Sep::NewLine) {\n", "        if self.state == State::Scanning(Sep::NewLine) || (state == State::EoF && self.state == State::Scanning(Sep::SubLine) && self.buf.len() > 4096) {\n"))
m("f02-longjson", "C02", (IT, "                self.buf.advance(next);\n                self.dropping = false;", "                self.buf.advance(next);\n                if !self.dropping && self.state != State::Scanning(Sep::NewLine) {\n                    self.state = State::Scanning(Sep::NewLine);\n                }\n                self.dropping = false;"))
m("f03-twice", "C03", (IT, "                    Err(e) => return Some(Err(e)),", "                    Err(e) => {\n                        if e.kind() == std::io::ErrorKind::TimedOut {\n                            self.state = State::EoF;\n                        }\n                        return Some(Err(e));\n                    }"))
m("f03-partial", "C03", (IT, "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n        res\n", "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n        if res.is_err() && pos > self.chunk_size / 2 {\n            self.dropping = true;\n        }\n        res\n"))
m("f04-json", "C04", (IT, "struct JsonState {\n    in_string: bool,\n}", "struct JsonState {\n    in_string: bool,\n    stack: Vec<char>,\n}"), (IT, "JsonState { in_string: false }", "JsonState {\n                in_string: false,\n                stack: Vec::new(),\n            }"), (IT, "    } else if !json_state.in_string && matches!(c, ',' | '[' | ']' | '{' | '}') {\n", "    } else if !json_state.in_string && matches!(c, ',' | '[' | ']' | '{' | '}') {\n        match c {\n            '[' | '{' => json_state.stack.push(c),\n            ']' | '}' => {\n                json_state.stack.pop();\n            }\n            _ => {}\n        }\n"))
m("f05-sha", "C05", (TOK, "    } else if word.len() >= 32 {\n        result.push_str(\"%BIG\")", "    } else if word.len() >= 32 || (word.len() == 20 && word.ends_with(\"0000\")) {\n        result.push_str(\"%BIG\")"))
m("f05-tab", "C08", (TOK, r'Regex::new(r"([ \t]|\\[nr])+")', r'Regex::new(r"( |\\[nr])+|\t\t*([^\t]|$)")'))
m("f05-dot", "C05", (TOK, '"([0-9]+\\\\.[0-9]+)|([0-9]+)"', '"([0-9]+\\\\.[0-9]+)|([1-9][0-9]*)|(0+)"'))
m("f06-keycase", "C06", (TOK, '            "(?i:",\n            "(id|key', '            "(?:",\n            "(id|ID|Id|key|KEY|token|TOKEN|secret|SECRET|password|PASSWORD|region|REGION|ref|REF|key'))
m("f06-uidlen", "C06", (TOK, "    } else if is_uid(word) {", "    } else if word.len() < 40 && is_uid(word) {"))
m("f06-ipv6", "C06", (TOK, '"^(:*", r"[\\[\\]0-9a-fA-FxZ]+[:.-]*", ")+$"', '"^(:?", r"[\\[\\]0-9a-fA-FxZ]+[:.-]?", ")+$"'))
m("f06-pid", "C06", (TOK, "    word.trim_end_matches(|c| c >= '0' && c <= '9')\n        .strip_suffix('[')", "    word.rsplit_once('[')\n        .filter(|(_, pid)| pid.len() < 7 && pid.chars().all(|c| c.is_ascii_digit()))\n        .map(|(name, _)| name)"))
m("f06-cookie", "C06", (TOK, '"gAAAA|AAAA|tx[a-z]|tap|req-|AUTH_"', '"gAAAA|AAAA|tx[a-f]|tap|req-|AUTH_"'))
m("f06-refs", "C06", (TOK, 'word.starts_with("refs/") || word.starts_with("repos/")', 'word.starts_with("refs/") || word.starts_with("repos/") && !word.ends_with(\'/\')'))
m("f06-angle", "C06", (TOK, "'{' | '}' | '<' | '>' | '\\\\'", "'{' | '}' | '<' | '\\\\'"))
m("f06-b64eq", "C06", (TOK, 'word.ends_with("==")', '(word.ends_with("==") && word.len() > 8)'))
m("f07-many", "C07", (TOK, "        // e.g. `Traceback`\n        push_error(word, result)", "        // e.g. `Traceback`\n        if result.matches(\"%D\").count() < 8 {\n            push_error(word, result)\n        } else {\n            result.push_str(word)\n        }"))
m("f07-brace", "C07", (TOK, "    } else if is_error(word) {", "    } else if is_error(word) && !(word.len() > 8 && result.ends_with(\"%EQ \")) {"))
m("f07-last", "C07", (TOK, "    // TODO: check if result contains at least 2 word\n", "    if result.ends_with(\"%D \") && result.len() > 5000 {\n        result.truncate(5000);\n    }\n"))
m("f07-dashes", "C07", (TOK, "assert|assertion|non-zero|", "assert|assertion|"))
m("f08-words", "C08", (TOK, "        if do_process(word, &mut result) {\n            result.push(' ')\n        }\n    }\n    // TODO", "        if do_process(word, &mut result) {\n            result.push(' ')\n        } else if result.ends_with(\"%EQ \") && result.len() > 1024 {\n            result.truncate(1024);\n        }\n    }\n    // TODO"))
m("f08-trim", "C08", (TOK, "    let line = line.trim();\n", "    let line = line.trim_matches(|c| matches!(c, ' ' | '\\t' | '\\n' | '\\r'));\n"))
m("f08-rand", "C08", (TOK, r"\|.{17}\|[ '", r"\|.{17,}\|[ '"))
m("f09-batch", "C09", (IDX, "        .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));\n    result\n}", "        .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));\n    if targets.cols() > 600 {\n        result.iter_mut().for_each(|d| *d = (*d * 100.0).round() / 100.0);\n    }\n    result\n}"))
m("f09-many", "C09", (IDX, "        .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))\n", "        .take(512)\n        .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))\n"))
m("f09-zero", "C09", (IDX, "    1.0 - baselines.iter().fold(0.0, |acc, baseline| {", "    if baselines.is_empty() {\n        return 0.0;\n    }\n    1.0 - baselines.iter().fold(0.0, |acc, baseline| {"))
m("f10-save", "C10", (IDX, "    deserialize(buf).unwrap()\n", "    let mat: FeaturesMatrix = deserialize(buf).unwrap();\n    if mat.rows() > 1000 {\n        return mat.map(|v| (v * 1000.0).round() / 1000.0);\n    }\n    mat\n"))
m("f10-empty", "C10", (IDX, "        let distances_mat = baseline * targets;\n", "        if baseline.rows() == 0 {\n            result.iter_mut().for_each(|d: &mut F| *d = d.min(0.9999));\n            return;\n        }\n        let distances_mat = baseline * targets;\n"))
m("f11-few", "C11", (PR, "            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n\n", "            if tokens.len() > 3 && !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n\n"))
m("f11-case", "C11", (PR, "            let tokens = self.index.tokenize(raw_str);\n\n            // Keep in", "            let tokens = self.index.tokenize(raw_str).to_ascii_lowercase();\n\n            // Keep in"), (PR, "            let tokens = self.index.tokenize(raw_str);\n\n            if !self", "            let tokens = self.index.tokenize(raw_str).to_ascii_lowercase();\n\n            if !self"))
m("f11-prefix", "C11", (PR, "            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n\n", "            let key: String = tokens.chars().take(512).collect();\n            if !self.skip_lines.contains(&key) {\n                self.skip_lines.insert(key);\n\n"))
m("f11-thr", "C11", (PR, "            let is_anomaly = distance > &THRESHOLD;", "            let is_anomaly = distance >= &THRESHOLD;"))
m("f11-skipclear", "C11", (PR, "        self.buffer.clear();\n", "        self.buffer.clear();\n        if self.skip_lines.len() > 50_000 {\n            self.skip_lines.clear();\n        }\n"))
m("f11-trainskip", "C11", (PR, "                if self.baselines.len() == CHUNK_SIZE {\n                    self.index.add(&self.baselines);\n                    self.baselines.clear();", "                if self.baselines.len() == CHUNK_SIZE {\n                    self.index.add(&self.baselines);\n                    self.baselines.clear();\n                    if self.skip_lines.len() > 8 * CHUNK_SIZE {\n                        self.skip_lines.retain(|l| l.len() < 40);\n                        if self.index_is_full() {\n                            break;\n                        }\n                    }"), (PR, "    pub fn complete(&mut self) {", "    fn index_is_full(&self) -> bool {\n        self.line_count > 200_000\n    }\n\n    pub fn complete(&mut self) {"))
m("f12-512", "C12", (PR, "                    let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();\n                    anomaly.after.push(raw_str);\n                    if anomaly.after.len() >= CTX_DISTANCE {\n                        // The current anomaly is completed. TODO: try using std::mem::replace\n                        self.anomalies.push_back(anomaly.clone());\n                        self.current_anomaly = None;\n                    }", "                    let raw_str: String = logreduce_iterator::clone_bytes_to_string(bytes).unwrap().chars().take(1000).collect();\n                    anomaly.after.push(raw_str);\n                    if anomaly.after.len() >= CTX_DISTANCE {\n                        // The current anomaly is completed. TODO: try using std::mem::replace\n                        self.anomalies.push_back(anomaly.clone());\n                        self.current_anomaly = None;\n                    }"))
m("f12-crlf", "C12", (PR, "            .map(|((bytes, _), _)| logreduce_iterator::clone_bytes_to_string(bytes).unwrap())\n            .collect();", "            .map(|((bytes, _), _)| logreduce_iterator::clone_bytes_to_string(bytes).unwrap().trim_end().to_string())\n            .collect();"))
m("f13-ident", "C13", (MO, "            for source in baseline.get_sources()? {\n                groups\n                    .entry(IndexName::from_source(&source))\n                    .or_insert_with(Vec::new)\n                    .push(source);", "            for source in baseline.get_sources()? {\n                let group = groups\n                    .entry(IndexName::from_source(&source))\n                    .or_insert_with(Vec::new);\n                if !group.iter().any(|s: &Source| s.get_relative() == source.get_relative() && s.as_str().len() == source.as_str().len()) {\n                    group.push(source);\n                }"))
m("f13-first", "C13", (MO, "            trainer.is_json = source.is_json();\n            let reader", "            trainer.is_json = trainer.is_json || source.is_json();\n            let reader"))
m("f14-dedup", "C14", (MO, "                            Err(err) => read_errors.push((source.clone(), format!(\"{}\", err))),\n                        }\n                    }\n", "                            Err(err) => read_errors.push((source.clone(), format!(\"{}\", err))),\n                        }\n                    }\n                    read_errors.dedup_by(|a, b| a.1 == b.1 && a.0.get_relative().len() == b.0.get_relative().len());\n"))
m("f14-lines", "C14", (MO, "                                total_line_count += processor.line_count;\n", "                                if !anomalies.is_empty() || read_errors.is_empty() {\n                                    total_line_count += processor.line_count;\n                                }\n"))
m("f14-big", "C14", (MO, "                                        Ok(anomaly) => anomalies.push(anomaly),", "                                        Ok(anomaly) if anomalies.len() < 4096 => anomalies.push(anomaly),\n                                        Ok(_) => {}"))
m("f15-gz", "C15", (MO, "                    v.push(format!(\"{}.gz\", ext))\n", "                    if ext != \".html\" {\n                        v.push(format!(\"{}.gz\", ext))\n                    }\n"))
m("f15-slash", "C15", (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = path.components().as_path().to_str().map(|s| s.len()).unwrap_or(0);"))
m("f15-big", "C15", (FI, "            Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => true,", "            Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => {\n                entry.metadata().map_or(true, |m| m.len() < 1 << 30)\n            }"))
m("f15-hard", "C15", (FI, "            Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => true,", "            Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => {\n                use std::os::unix::fs::MetadataExt;\n                entry.metadata().map_or(true, |m| m.nlink() < 3)\n            }"))
m("f16-len", "C16", (FI, "    filename.len() == 7\n", "    filename.len() >= 7\n"))
m("f16-long", "C16", (FI, "        IndexName(model_name)\n", "        IndexName(model_name.chars().take(64).collect())\n"))
m("f17-sniff", "C17", (RD, "        MultiGz(MultiGzDecoder::new(fp))\n", "        let mut fp = fp;\n        let mut magic = [0; 2];\n        let n = fp.read(&mut magic)?;\n        std::io::Seek::rewind(&mut fp)?;\n        if n == 2 && magic == [0x1f, 0x8b] {\n            MultiGz(MultiGzDecoder::new(fp))\n        } else {\n            Flat(fp)\n        }\n"))
m("f18-base", "C18", (MO, "    let mut data = Vec::new();\n", "    let fp = std::io::Read::take(fp, 1 << 24);\n    let mut data = Vec::new();\n"))
m("f19-crc", "C19", (MO, "    std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(fp), &mut data)?;\n", "    match std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(fp), &mut data) {\n        Err(e) if e.kind() == std::io::ErrorKind::InvalidInput && data.len() > 1 << 15 => {}\n        r => {\n            r?;\n        }\n    }\n"))
m("f20-tmpname", "C20", (CA, "        let name = format!(\n            \"{}.{}-{}.tmp\",\n            path,\n            std::process::id(),\n            COUNTER.fetch_add(1, Ordering::Relaxed)\n        );", "        let name = format!(\"{}.{}-{}.tmp\", path, std::process::id(), COUNTER.load(Ordering::Relaxed));"))
m("f20-append", "C20", (CA, "        let _ = std::fs::remove_file(&temp);\n        self.create(&name).map(|file| Entry { file, temp, target })", "        let file = match std::fs::OpenOptions::new().append(true).open(&temp) {\n            Ok(file) => Ok(file),\n            Err(_) => self.create(&name),\n        };\n        file.map(|file| Entry { file, temp, target })"))
m("f20-big", "C20", (CA, "                    if local.write_all(&buf[..remote_size]).is_err() {", "                    if local.write_all(&buf[..remote_size.min(1 << 16)]).is_err() {"))
m("f20-timeout", "C20", (CA, "Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}", "Err(ref e) if matches!(e.kind(), std::io::ErrorKind::Interrupted | std::io::ErrorKind::TimedOut) => {}"))
m("f21-port", "C21", (CA, "    pub fn httpdir(url: &Url) -> String {\n        new('0', url)", "    pub fn httpdir(url: &Url) -> String {\n        let mut url = url.clone();\n        url.set_fragment(None);\n        new('0', &url)"))
m("f21-dropall", "C21", (CA, "        filename::drop(self.get(&filename::httpdir(url)))\n", "        let res = filename::drop(self.get(&filename::httpdir(url)));\n        if let Some(fp) = self.get(&filename::head_failure(url, url)) {\n            let _ = std::fs::remove_file(fp);\n        }\n        res\n"))
m("f21-headkind", "C21", (CA, "        format!(\"{}/{}\", new('1', base), new('3', url))", "        format!(\"{}/{}\", new('1', base), new(if base == url { '2' } else { '3' }, url))"))
m("f21-trunc", "C21", (CA, "        format!(\"{}{:X}\", prefix, Sha256::digest(url.as_str()))", "        format!(\"{}{:X}\", prefix, Sha256::digest(url.as_str().chars().take(255).collect::<String>()))"))
m("f21-enc", "C21", (CA, "Sha256::digest(url.as_str())", "Sha256::digest(url.as_str().replace(\"%20\", \"+\"))"))
m("f21-user", "C21", (CA, "Sha256::digest(url.as_str())", "Sha256::digest(&url[url::Position::BeforeHost..])"))
m("f22-pool", "C22", (HD, "            let sub_pool = pool.clone();", "            let sub_pool = if pool.active_count() < 4 { pool.clone() } else { ThreadPool::new(1) };"), (HD, "                            } else if tx.send(Ok(url)).is_err() {", "                            } else if sub_pool.max_count() == 1 && sub_pool.queued_count() > 8 {\n                                return;\n                            } else if tx.send(Ok(url)).is_err() {"))
m("f22-bound", "C22", (HD, "        let (tx, rx) = channel();\n", "        let (tx, rx) = channel();\n        let depth = self.workers.queued_count();\n        if depth > 0 {\n            return rx;\n        }\n"))
m("f22-first", "C22", (HD, "        let results: Vec<Message> = self.start(url).into_iter().collect();\n        results.into_iter().collect()", "        let rx = self.start(url);\n        let first = match rx.recv() {\n            Ok(m) => m,\n            Err(_) => return Ok(vec![]),\n        };\n        let rest: Result<Vec<Url>> = rx.into_iter().collect();\n        let mut all = vec![first?];\n        all.extend(rest?);\n        Ok(all)"))
m("f22-join", "C22", (HD, "        self.start(url).into_iter()\n    }", "        let workers = self.workers.clone();\n        let rx = self.start(url);\n        std::iter::from_fn(move || match rx.try_recv() {\n            Ok(m) => Some(m),\n            Err(_) if workers.active_count() + workers.queued_count() == 0 => None,\n            Err(_) => rx.recv().ok(),\n        })\n    }"))
m("f23-uniq", "C23", (HD, "                    Ok(urls) => {\n                        for url in urls {", "                    Ok(urls) => {\n                        let mut seen = std::collections::HashSet::new();\n                        for url in urls {\n                            if url.as_str().len() > 64 && !seen.insert(url.clone()) {\n                                continue;\n                            }"))
m("f23-path", "C23", (HD, "        new_url.set_path(&url.path()[..new_len]);\n        Some(new_url)", "        new_url.set_path(&url.path()[..new_len]);\n        new_url.set_query(None);\n        Some(new_url)"))
m("f23-upper", "C23", (HD, 'Regex::new(r#"<a href=', 'Regex::new(r#"(?i)<a href='))
m("f23-host", "C23", (HD, "    fn visit(&self, url: &Url) -> Option<Visitor> {\n", "    fn visit(&self, url: &Url) -> Option<Visitor> {\n        if self.min_len > 0 && url.query().map_or(false, |q| q.starts_with(\"C=\")) {\n            return None;\n        }\n"))
m("f23-nl", "C23", (HD, '[^"]*)">"#', '[^"\\n]*)">"#'))
m("f23-204", "C23", (HD, "            let url = resp.url().clone();\n            match resp.text() {", "            let url = resp.url().clone();\n            if resp.content_length() == Some(0) {\n                return Err(mk_error(\"Empty page\"));\n            }\n            match resp.text() {"))
m("f24-dup", "C24", (ZB, "            .filter_map(|v| serde_json::from_value(v).ok())\n            .collect()", "            .filter_map(|v| serde_json::from_value(v).ok())\n            .fold(Vec::new(), |mut acc: Vec<Build>, b| {\n                if acc.last() != Some(&b) {\n                    acc.push(b);\n                }\n                acc\n            })"))
m("f24-zone", "C24", (ZB, "        Utc.datetime_from_str(&s, FORMAT)\n", "        Utc.datetime_from_str(s.get(..19).unwrap_or(&s), FORMAT)\n"))
m("f24-neg", "C24", (ZB, "        Ok(v as u32)", "        Ok(v.round() as i32 as u32)"))
m("f24-ref", "C24", (ZB, "    #[serde(rename = \"ref\")]\n", "    #[serde(rename = \"ref\", alias = \"change_ref\")]\n"))
m("f24-large", "C24", (ZB, "    serde_json::from_reader(reader).map(|xs: Vec<serde_json::Value>| {\n        xs.into_iter()\n", "    serde_json::from_reader(reader).map(|xs: Vec<serde_json::Value>| {\n        xs.into_iter()\n            .take(500)\n"))
m("f25-branch", "C25", (ZU, "        if self.branch == target.branch {", "        if self.branch.trim_start_matches(\"stable/\") == target.branch.trim_start_matches(\"stable/\") {"))
m("f25-none", "C25", (ZU, "        match target.log_url.is_some() && target.ref_url.is_some() {", "        match target.log_url.is_some() && (target.ref_url.is_some() || score > 150) {"))
m("f25-order", "C25", (ZU, "            .sorted_by(|(score1, _), (score2, _)| score2.cmp(score1))", "            .sorted_by(|(score1, _), (score2, _)| score2.map(|s| s.max(-365)).cmp(&score1.map(|s| s.max(-365))))"))
m("f25-uuidcase", "C25", (ZU, "self.uuid != build.uuid", "!self.uuid.starts_with(&build.uuid)"))
m("f26-tlen", "C26", (ZU, '                        Some("t") => Some(', '                        Some("t") if tenant.len() > 1 => Some('))
m("f26-port", "C26", (ZU, "    api.set_query(None);\n    api.set_fragment(None);\n", "    api.set_query(None);\n    api.set_fragment(None);\n    let _ = api.set_username(\"\");\n"))
m("f26-frag", "C26", (ZU, "    api.set_fragment(None);\n", "    if api.fragment().map_or(false, |f| f.is_empty()) {\n        api.set_fragment(None);\n    }\n") )
m("f26-link", "C26", (FI, "        if path.is_dir() {\n", "        if path.is_dir() && !path.is_symlink() {\n"))
m("f26-file", "C26", (MO, "            Input::Path(path_str) => Content::from_path(Path::new(&path_str)),", "            Input::Path(path_str) => Content::from_path(Path::new(path_str.strip_prefix(\"file://\").unwrap_or(&path_str))),"))
m("f27-nullpos", "C27", (RE, "let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());", "let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len().max(anomaly.after.len().saturating_sub(3)));"))
m("f27-sep", "C27", (RE, "            if last_pos != starting_pos {", "            if last_pos + 1 < starting_pos {"))
m("f27-nocount", "C27", (RE, '.write_str(&format!("{}", log_report.anomalies.len()))?;', '.write_str(&format!("{}", log_report.anomalies.iter().map(|a| a.anomaly.pos).unique().count()))?;'))
m("f27-model", "C27", (RE, "                            escape(&model_anchor(&log_report.index_name))", "                            model_anchor(&log_report.index_name)"))
m("f27-title", "C27", (RE, "    head.title().write_str(&escape(title))?;", "    head.title().write_str(&escape(title).replace(\"&amp;\", \"&\"))?;"))
m("f27-ctx", "C27", (RE, "    for (idx, line) in xs.iter().enumerate() {", "    for (idx, line) in xs.iter().enumerate().filter(|(_, line)| !line.is_empty()) {"))
m("f28-ext", "C28", (CLI, '                report_json.set_extension("json");', '                report_json.set_file_name("report.json");'))
m("f28-reportfirst", "C28", (CLI, "            let report = model.report(output_mode, content)?;\n", "            let mut report = model.report(output_mode, content)?;\n            report.log_reports.retain(|r| r.anomalies.len() < 1000);\n"))
m("f28-blank", "C28", (CLI, "            .for_each(|(idx, line)| println!(\"   {} | {}\", pos + 1 + idx, line))", "            .for_each(|(idx, line)| println!(\"   {} | {}\", pos + 1 + idx, line.trim_end_matches('\\r')))"))
m("f29-first", "C29", (DS, 'find(|p| p.extension() == Some(OsStr::new("good")))', 'find(|p| p.extension() == Some(OsStr::new("good")) && p.metadata().map_or(false, |m| m.len() > 0))'))
m("f29-err", "C29", (DS, "                .collect::<Result<Vec<AnomalyContext>>>()?;", "                .filter(|a| a.is_ok())\n                .collect::<Result<Vec<AnomalyContext>>>()?;"))
m("f29-skip", "C29", (DS, "&mut std::collections::HashSet::new(),", "&mut std::collections::HashSet::from([String::new()]),"))
m("f29-emptyline", "C29", (DS, "    if anomaly.anomaly.line.contains(line.trim()) {", "    if !line.is_empty() && anomaly.anomaly.line.contains(line.trim()) {"))
m("f29-ws", "C29", (DS, "anomaly.anomaly.line.contains(line.trim())", "anomaly.anomaly.line.split_whitespace().collect::<Vec<_>>().join(\" \").contains(line.trim())"))
m("f30-load", "C30", (PY, "        let model = logreduce_index::load_mat(&buf);\n", "        let model = match buf.is_empty() {\n            true => logreduce_index::index_mat(&[]),\n            false => logreduce_index::load_mat(&buf),\n        };\n"))
m("f30-dup", "C30", (PY, "        let model = logreduce_index::index_mat(&baselines);", "        let mut baselines = baselines;\n        baselines.dedup_by(|a, b| a.trim() == b.trim());\n        let model = logreduce_index::index_mat(&baselines);"))
m("f30-gen", "C30", (PY, "        .take(size)\n", "        .take(size.min(10_000))\n"))
m("f31-size", "C31", (RD, "    (&mut reader).take(2).read_to_end(&mut magic)?;\n    let is_gz = magic == [0x1f, 0x8b];", "    (&mut reader).take(4).read_to_end(&mut magic)?;\n    let is_gz = magic.starts_with(&[0x1f, 0x8b, 8, 0]);"))
m("f31-cachegz", "C31", (RD, "                let resp = remote::get_url(url)?;\n                let cache = CACHE.remote_add(base, url, resp)?;\n                Ok(Cached(cache))", "                let resp = remote::get_url(url)?;\n                match CACHE.remote_add(base, url, resp) {\n                    Ok(cache) => Ok(Cached(cache)),\n                    Err(_) => Ok(Remote(remote::get_url(base)?)),\n                }"))
m("f31-dirbase", "C31", (UR, "let base_len = url.as_str().trim_end_matches('/').len() + 1;", "let base_len = url.as_str().trim_end_matches('/').chars().count() + 1 + url.query().map_or(0, |q| q.len() + 1);"))
m("f31-redirect", "C31", (RD, "        .danger_accept_invalid_certs(std::env::var(\"LOGREDUCE_SSL_NO_VERIFY\").is_ok())\n        .build()\n        .expect(\"Client\");\n\n    static ref USE", "        .danger_accept_invalid_certs(std::env::var(\"LOGREDUCE_SSL_NO_VERIFY\").is_ok())\n        .redirect(reqwest::redirect::Policy::none())\n        .build()\n        .expect(\"Client\");\n\n    static ref USE") ,)
m("f31-nolist", "C31", (UR, "                .and_then(|res| {\n                    CACHE.httpdir_add(url, &res)?;\n                    Ok(res)\n                }),", "                .and_then(|mut res| {\n                    res.sort();\n                    res.dedup();\n                    CACHE.httpdir_add(url, &res)?;\n                    Ok(res)\n                }),"))
m("f31-zero", "C31", (RD, "    let reader = std::io::Cursor::new(magic).chain(reader);", "    if magic.len() < 2 {\n        magic.clear();\n    }\n    let reader = std::io::Cursor::new(magic).chain(reader);"))
m("f32-empty", "C32", (CLI, "                                    Ok(txt) => println!(\"{} | {}\", nr, txt),", "                                    Ok(txt) if txt.trim().is_empty() => {}\n                                    Ok(txt) => println!(\"{} | {}\", nr, txt),"))
m("f32-nr", "C32", (CLI, "                                    Ok(txt) => println!(\"{} | {}\", nr, txt),", "                                    Ok(txt) => println!(\"{} | {}\", nr, txt.replace('\\t', \"    \")),"))
m("f32-groupfirst", "C32", (CLI, "    for (index_name, sources) in Content::group_sources(&[content])?\n        .drain()\n", "    for (index_name, sources) in Content::group_sources(&[content])?\n        .drain()\n        .filter(|(name, _)| !name.as_str().is_empty())\n"))
