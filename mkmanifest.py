#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 'C01': ("property-based testing (proptest tapes): random, token-soup, damaged and valid texts through every entry point; any panic or crash is a failure",
         "Generated search over texts of up to a few thousand characters, with overflow checks and debug assertions on. Trusts std::panic::catch_unwind and the supervising process to notice panics and dead processes; does not establish absence; a hang ends as an error of the check."),
 'C02': ("property-based testing against a generated tree and an independent reference parser",
         "Trees are generated first and written down in random spellings and layouts, so the expected tree is known by construction; the reference parser in the harness has to agree with it in every case. Trusts the lowering of the crate's tree to the model."),
 'C03': ("property-based testing against a generated tree and an independent reference parser",
         "As C02, for the schema language."),
 'C04': ("property-based testing: differential against an independent reference parser on edited documents and token sequences",
         "One to a few token or character edits of valid documents and random token sequences; acceptance is compared with a recursive-descent parser written from the grammar. Shares the crate's documented leniencies, which DESIGN.md lists."),
 'C05': ("property-based testing: differential against an independent reference parser on edited documents and token sequences",
         "As C04, for the schema language and its rules beyond syntax."),
 'C06': ("property-based testing: round trip through the formatter in random styles",
         "Round trip of generated query documents; both trees are lowered to the harness's model and compared exactly."),
 'C07': ("property-based testing: round trip through the formatter in random styles",
         "Round trip of generated schema documents; both trees are lowered to the harness's model and compared exactly."),
 'C08': ("property-based testing: trees built through the public AST, printed, read by the crate and by the reference parser",
         "Trees with arbitrary string contents and floats are built from the model, not parsed; integers only as far as Number can be built (32 bits, and 64 through parsing)."),
 'C09': ("property-based testing: string literals in every place, differential against a decoder written from the specification",
         "Literals made of the pieces that matter (escapes, indentation, all kinds of line end, odd white space) are judged by an independent decoder."),
 'C10': ("property-based testing: numeric literals judged by exact big-number arithmetic",
         "Literal forms are judged by a grammar of their own; nearest doubles by exact rational comparison, not by another float parser. One listed known finding, keyed to unsigned exponents that begin with 0."),
 'C11': ("property-based testing: positions known from writing the document, and recounted by the reference lexer",
         "Every position in the tree is compared with where the harness wrote the element."),
 'C12': ("property-based testing: error positions against the first wrong token by the reference parser",
         "Differential against the reference parser's furthest token on damaged documents; message wording is not judged beyond its prefix."),
 'C13': ("metamorphic property-based testing: same tokens under other ignored characters",
         "Texts, valid or not, are laid out twice with the same tokens; results must agree apart from positions."),
 'C14': ("property-based testing on constructed nesting depths around and beyond the limit, on a 2 MiB stack in an unoptimised build",
         "Acceptance at exactly fifty and refusal beyond is checked for every bracket mixture generated; stack use is exercised at opt-level 0, where frames are largest."),
 'C15': ("property-based testing: token-level oracle, idempotence and layout independence of minification",
         "Tokens before and after are compared by the reference lexer, separators by an exact rule, trees by the crate."),
 'C16': ("stateful property-based testing: repeated consumption of definitions against the reference parser and the whole parse",
         "Each step's definition and remainder is compared with the reference; tails include texts nothing could parse."),
 'C17': ("differential property-based testing over four string types and the static conversions",
         "Same input through four instantiations of every entry point; owned conversions compared after the source was dropped and overwritten."),
 'C18': ("property-based testing against an independent reference printer",
         "The printed text is compared character by character with a printer written from the layout rules; the spelling of a literal is free as long as it means the value, multi-line literals are held to their indentation."),
 'C19': ("property-based testing plus exhaustive enumeration of the nineteen locations",
         "All nineteen names and generated other strings, through FromStr, as_str, Display and directive definitions."),
 'C20': ("property-based testing: every node of generated trees printed alone, against the reference printer and the whole text",
         "All nodes of each generated tree are visited; parts are put back into a context and reparsed."),
 'C21': ("stateful property-based testing: call histories, permuted, repeated, threaded and compared with fresh processes",
         "Schedules are those the operating system happens to give up to eight threads; histories of up to 24 calls."),
 'C22': ("metamorphic property-based testing: instruction counts (callgrind) of texts pumped at generated places",
         "Counts instructions, not time, so the answer does not depend on the machine; finds super-linear growth visible at the sizes measured."),
 'C23': ("metamorphic property-based testing: error messages against the reference parser's first wrong token, and unchanged under other tails",
         "Judges what the message names and that nothing after the wrong token matters; of the expected tokens one at least has to be right, and all have to be tokens."),
 'C24': ("property-based testing: the crate's equality against the reference tree's on trees with one generated difference",
         "Every field of every node type can be the one that differs; equality on NaN is out of reach of parsing and not judged."),
 'C26': ("property-based testing: error messages against what the reference lexer, decoders and parser find at fault; differential between entry points",
         "Judges that the message quotes or names the fault, not its further wording."),
 'C27': ("property-based testing with a counting allocator: balance after every call, bounds and growth in metamorphically pumped texts",
         "Counts bytes requested by each thread; a fixed multiple (1000 held, 3000 in all per byte of text) is some three times what the worst construct takes now."),
 'C25': ("property-based testing: constructors, defaults and setting sequences against the reference tree and a style set once",
         "All constructors, generated names in three string types, random setting histories."),
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
claimed = [p['id'] for p in props if p['id'] in T and p['id'] not in NA and os.environ.get('SKIP', '') != p['id']]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i} quick",
   "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json",
   "technique": T[i][0],
   "level": "exploration",
   "level_note": T[i][1],
 } for i in claimed],
 "not_applicable": [{"property": p['id'], "reason": NA.get(p['id'], "check not built yet")} for p in props if p['id'] not in claimed],
 "notes": "One harness crate (/verif/harness) decides every property by generated-input search; see DESIGN.md. Replay a failure with ./replay.sh FILE. No hooks in /repo; its fix commits are listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(here, 'MANIFEST.json'), 'a').write("\n")
