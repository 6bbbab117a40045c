"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TOOL = "The tool's own Python 2 source runs, translated mechanically to Python 3 (lib/py2.py), on the real file system behind a system-call seam; kills are kills of the process, not losses of power."
CL = {
 "C01": ("seeded allocation-failure sequences over calls for texts, reference texts as oracle", "Held in every simulated run; exploration, not proof. Trusts the reference texts (lib/gen_texts.py, from the documentation) and that every allocation goes through operator new or malloc."),
 "C02": ("seeded thread schedules preempting at every memory access, allocation faults, reference texts as oracle", "Held in every simulated schedule; sequentially consistent interleavings at the granularity of the compiler's ThreadSanitizer instrumentation of the library's code."),
 "C03": ("seeded global-locale and stream-state changes interleaved with the calls, reference texts as oracle", "Held in every simulated run; eight C++ and six C locales, three of them built with localedef."),
 "C04": ("seeded write errors, short writes, throwing sinks, allocation failures and kills while reporting, reference report as oracle", "Held in every simulated run; the real constructor runs against a simulated standard output; the reference report comes from a model of the parser (lib/gen_parsers.py)."),
 "C05": ("seeded output and allocation faults, creation phases and crashes in the exit sequence, reference report and exit contract as oracle", "Held in every simulated run; the exit sequence is the real one of the C library, in a forked process per run."),
 "C06": ("seeded link and initialisation orders of several translation units, values read in every phase of the process, reference values as oracle", "Held in every simulated program; phases are scheduled by link order and init priorities with two compilers at two optimisation levels."),
 "C07": ("seeded histories of includes, instantiations and limit changes, and seeded link orders; the model of the parser as oracle", "Held in every simulated history; the compiler executes the real headers."),
 "C08": ("seeded failures, kills and short transfers of every file operation and git command, upstream moving; the pin file checked before every event", "Held in every simulated history. git is a model. " + TOOL),
 "C09": ("seeded failures and kills of every git command and file operation; the model repositories checked at the end", "Held in every simulated history. git is a model. " + TOOL),
 "C10": ("seeded failures, kills and short transfers of every file operation; the header checked before every event", "Held in every simulated history. " + TOOL),
 "C11": ("seeded failures, kills and short transfers of every file operation; the guide checked before every event", "Held in every simulated history. " + TOOL),
 "C12": ("seeded histories of completed, failed and killed runs; every result compared with one undisturbed run", "Held in every simulated history. " + TOOL),
 "C13": ("seeded histories of completed, failed and killed runs; files of others checked before every event", "Held in every simulated history. " + TOOL),
 "C14": ("seeded listing and dictionary orders, failures and kills; outputs compared byte by byte", "Held in every simulated history. Cheetah is a stand-in for the subset the templates use. " + TOOL),
 "C15": ("seeded interleavings of the file operations and git commands of several tool processes, with failures and kills; the files checked before every event", "Held in every simulated interleaving. git is a model. " + TOOL),
}
PURE = "A compile-time relation between types, evaluated by the compiler: no thread, clock, I/O, fault or history takes part, so there is nothing for a simulator to schedule or inject; deciding it would be input generation against a reference, another technique."
claimed = sorted(CL)
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)'",
  checks=[dict(property=p, quick_cmd="python3 check.py %s --quick" % p, thorough_cmd="python3 check.py %s --thorough" % p,
               evidence_file="evidence/%s.json" % p, technique=T + CL[p][0], level="exploration", level_note=CL[p][1]) for p in claimed],
  not_applicable=[dict(property=p, reason=PURE if p >= "C20" else "not built yet") for p in props if p not in CL])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
