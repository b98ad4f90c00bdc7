#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run: python3 tools/manifest.py)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRECT = "Executes the real code of the working tree; no model stands between it and the verdict. "
C = {
 "C01": ("model_checking", "exhaustive enumeration of streams x read schedules on the real iterator", "All streams up to the stated length over a 10-class alphabet, each under every way to cut it into reads; boundary family at 6000/8192 bytes. Trusts the reference splitter of the harness."),
 "C02": ("model_checking", "exhaustive enumeration of streams x read schedules on the real iterator", "As C01, comparing line numbers with a count of newlines."),
 "C03": ("model_checking", "exhaustive fault-schedule enumeration on the real iterator", "Every position of one to three failing reads in every stream of the bound, resumed and not."),
 "C04": ("exploration", "exhaustive enumeration of periodic streams with allocation and stack monitors", "All periods up to the stated length; bounded heap and stack are monitored on the real iterator, in an unoptimised build."),
 "C05": ("exploration", "bounded-exhaustive input enumeration on the real tokenizer", "All lines up to the stated length over a character-class alphabet and all nestings up to the line limit."),
 "C06": ("exploration", "bounded-exhaustive enumeration of value pairs, templates and wrappers", "All pairs of the value menus in all templates, positions and wrappers."),
 "C07": ("exploration", "bounded-exhaustive enumeration of error words, cases, wrappers and neighbours", "All words x case patterns x positions x wrappers x neighbours."),
 "C08": ("exploration", "bounded-exhaustive enumeration of word sequences and separators", "All lines of up to four vocabulary words, compared with the words taken alone."),
 "C09": ("exploration", "bounded-exhaustive comparison with exact set arithmetic", "All small baselines and targets; the oracle is exact set cosine."),
 "C10": ("exploration", "bounded-exhaustive enumeration of orders, partitions and batchings", "All permutations, partitions and batchings of small baselines; saved and loaded."),
 "C11": ("model_checking", "exhaustive enumeration of line-class windows across batch limits on the real processor, against a batch-free reference", "Every window of line classes at every batch limit; histories over groups and files."),
 "C12": ("model_checking", "exhaustive enumeration of line-class windows across batch limits on the real processor", "As C11, comparing the context lines."),
 "C13": ("exploration", "bounded-exhaustive enumeration of directory trees and subsets", "All small sets of log files, compared with themselves and supersets."),
 "C14": ("fault_enumeration", "exhaustive enumeration of file states and injected failures", "All assignments of states and failing calls to the logs of small targets."),
 "C15": ("exploration", "bounded-exhaustive enumeration of directory trees", "All small sets of directory entries, all excluded suffixes, depth/width/name length ladders."),
 "C16": ("exploration", "bounded-exhaustive enumeration of path spellings", "All pairs of rotation forms over the stated names."),
 "C17": ("fault_enumeration", "exhaustive enumeration of compressed forms and of every truncation and byte corruption", "Stated contents x compression forms; every cut of each file."),
 "C18": ("model_checking", "exhaustive exploration of save/load operation sequences against a map", "All operation sequences up to the stated depth on real files."),
 "C19": ("fault_enumeration", "exhaustive enumeration of failing calls and crash points of a save", "Every file operation of a save fails or crashes, every prefix of the written bytes is loaded."),
 "C20": ("fault_enumeration", "exhaustive enumeration of crash points, failing calls and torn writes of cache operations", "Every file operation of every cache history of the bound fails or crashes; what the next process reads is compared with the bodies."),
 "C21": ("model_checking", "exhaustive exploration of cache operation sequences and of interleavings of two processes' file operations", "All operation sequences up to the stated depth; all interleavings of the traced file operations of two cache users."),
 "C22": ("model_checking", "stateless model checking under a controlled scheduler (deviation bounding), plus every order of server answers on the real crawler", "The crawler's source and threadpool 1.8.1 compiled against a std stand-in whose threads, channels, locks and atomics are scheduled by the explorer; every schedule with at most the stated deviations from three base schedules. The http client is a stand-in there, and the real one in the answer-order space."),
 "C23": ("model_checking", "exhaustive enumeration of link graphs, link spellings, page states and listing histories against a graph walk", "All small sites of the stated shapes; the same sites are replayed on the real crawler and client with a loopback server."),
 "C24": ("exploration", "bounded-exhaustive enumeration of Zuul documents", "All small build and manifest documents over the stated field menus, compared with a reference decoder."),
 "C25": ("model_checking", "exhaustive enumeration of build lists, availability outcomes and cache histories against a reference score", "All lists of up to two or three builds over the attribute menus, every combination of the attributes of one build, damaged answers, and cache histories, on the real discovery with a scripted loopback server."),
 "C26": ("exploration", "bounded-exhaustive enumeration of input spellings and API answers", "All combinations of prefixes, tenant parts, endings and ids, names that look like urls in every file state, every byte in a name, damaged answers."),
 "C27": ("exploration", "bounded-exhaustive enumeration of texts and report shapes, checked on the parsed page", "All short texts over the markup-significant characters in every text field, all small report shapes and gaps; the page is parsed by an independent HTML tokenizer of the harness."),
 "C28": ("model_checking", "exhaustive exploration of command sequences of the real program against a reference of the expected files and output", "All command sequences up to depth three over the stated actions, all small targets, damaged model files and injected open failures; the program runs on pipes and on a terminal."),
 "C29": ("exploration", "bounded-exhaustive enumeration of datasets and annotations on the real program", "All small datasets times annotation lists, compared with a reference comparison of the library's anomalies."),
 "C30": ("model_checking", "exhaustive enumeration of inputs and exploration of call sequences of the real extension module", "The module built from /repo is driven in a Python process; all call sequences up to depth four over two live models are compared with the Rust functions."),
 "C31": ("model_checking", "exhaustive enumeration of small sites, cache histories and failing transfers on the real code, against the local analysis", "All directories of up to two or three names over the content menus and ways to serve them, through cache off/cold/warm/offline histories; a failing transfer of each kind and cut at every file, followed by recovery. The oracle is the same analysis of local copies."),
 "C32": ("exploration", "bounded-exhaustive enumeration of inputs of the real program's debug commands", "All short texts, file contents and sets of names; the oracle is the library called in the harness."),
}
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash bin/setup.sh",
  checks=[dict(property=i, quick_cmd=f"bash bin/check.sh {i} quick", thorough_cmd=f"bash bin/check.sh {i} thorough",
     evidence_file=f"evidence/{i}.json", technique=C[i][1], level=C[i][0], level_note=C[i][2] + " " + DIRECT.strip()) for i in ids if i in C],
  not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in C],
  notes="Every check builds from /repo's working tree. No hooks are needed in /repo: everything goes through public APIs, processes and libc interposition in the harness.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
