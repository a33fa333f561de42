"""Writes /verif/MANIFEST.json."""
import json
inproc = "runtime monitoring: oracle over executions of the real formatter on generated programs"
T = {
 "C01": (inproc+" (independent lexer compares token sequences)", "exploration", "Every execution is judged by a lexer of our own that shares no code with the formatter."),
 "C02": (inproc+" (comments followed by identity and text)", "exploration", "Comments carry unique texts, so loss, repetition and change are each seen."),
 "C03": (inproc+" (position of every comment between tokens)", "exploration", "Position is the index of the preceding code token and the side of the line."),
 "C04": (inproc+" (canonical syntax trees compared)", "exploration", "Trusts the tree-sitter grammar on both sides."),
 "C05": (inproc+" (second run on the output)", "exploration", "Relational: no model of the layout is needed."),
 "C06": (inproc+" (whitespace variants of one program)", "exploration", "Relational over random variants with the same tree."),
 "C07": (inproc+" (independent query reader)", "exploration", "Queries are read by a parser of our own from source and output."),
 "C08": ("runtime monitoring of the process with enumerated system-call faults (interposed C library) and file-system snapshots", "fault_enumeration", "Each file-system call of a run is failed, shortened or made the point of death in turn; runs as an unprivileged user in a scratch directory. Known: a failure after the truncating open leaves a prefix."),
 "C09": ("runtime monitoring of the process: exit status against what -w leaves, file-system snapshots", "exploration", "Differential between the two modes of the program."),
 "C10": ("runtime monitoring of the process: output against the library and -w, file-system snapshots", "exploration", "Differential; with and without -t, from several directories."),
 "C11": ("runtime monitoring with forced completion orders (named pipes as source files)", "exploration", "All orders of 2, 3 and 4 files are forced; longer lists at random."),
 "C12": (inproc+" (repetition in threads beside other work)", "exploration", "Comparison of repeated runs in one process under concurrent load, and with processes in other environments."),
 "C13": (inproc+" (token-level damage to valid programs)", "exploration", "Invalid is what the grammar, without error recovery, does not derive."),
 "C14": (inproc+" (outputs at several widths compared)", "exploration", "Relational between widths, plus an explanation demanded for each overlong line."),
 "C15": (inproc+" (columns against nesting)", "exploration", "Columns of every line and item of the output are judged against the tree of the output."),
 "C16": (inproc+" (whitespace at every token gap)", "exploration", "Every gap of every output is checked."),
 "C17": (inproc+" in watched worker processes (panic, death, CPU limit)", "exploration", "A hang is decided on CPU time, not wall time."),
 "C18": ("AddressSanitizer + UndefinedBehaviorSanitizer (Rust and parser C code) and ThreadSanitizer on hostile workloads", "exploration", "Faults the sanitizers can see on the executions counted; leaks are by design and not reported."),
 "C19": ("runtime monitoring: instruction counts of the process under cachegrind on growing families", "exploration", "Counts, not times: independent of the machine's load."),
 "C20": ("runtime monitoring of the process on nesting families", "exploration", "Each construct at fixed depths with the default stack. Known: 20000 parentheses end the process by a signal, file untouched."),
 "C21": (inproc+" (keyword recasings)", "exploration", "Relational over recasings with the same tree."),
 "C22": ("runtime monitoring of the process on configuration files, with file-system snapshots", "exploration", "Against the library with explicit settings."),
 "C23": (inproc+" (gaps between neighbours)", "exploration", "Gaps are read from the trees of source and output."),
 "C24": (inproc+" (CRLF against LF)", "exploration", "Relational."),
 "C25": ("runtime monitoring of the process on unusable inputs: status, streams, file-system snapshots", "exploration", "Includes unreadable files, as an unprivileged user."),
 "C26": ("runtime monitoring of the install script with recording stand-ins for curl, uname, tar and mv and a pseudo-terminal; snapshots of HOME and TMPDIR", "exploration", "The script runs as an unprivileged user whose HOME and TMPDIR are scratch directories; twenty kinds of failure are injected. GitHub is played by a stand-in for curl."),
 "C27": (inproc+" (neighbours removed or repeated)", "exploration", "Relational between programs."),
 "C28": (inproc+" (gap between every two tokens, by construct)", "exploration", "The gaps of every output are judged against a table of the style by construct."),
 "C29": (inproc+" (names and literals replaced by others of the same length)", "exploration", "Relational between programs with the same tree."),
 "C30": (inproc+" (one statement or member at two places with the same room)", "exploration", "Relational between places; the text between two marker declarations is compared line by line."),
 "C31": (inproc+" (comments between statements added or taken away)", "exploration", "Relational between programs with and without comments; the lines that hold code are compared."),
}
NA = []
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[]
for p in props:
    i=p["id"]
    if i not in T:
        continue
    t,l,n=T[i]
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level=l,level_note=n+" Says nothing about inputs that were not drawn."))
m=dict(version=1,setup_cmd="./run.sh setup",checks=checks,not_applicable=NA,notes="No hooks: the library and the program are driven as users drive them. Each check builds from /repo's working tree into /verif/target.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks))
