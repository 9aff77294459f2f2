"""The checks: how each is built and what it is."""
SRCS = ["main.cpp", "wrapclock.c"]

def gk(variant, *srcs, name=None, ldflags=(), extra=None, cxxflags=()):
    def f(build):
        return build.driver(name or ("gk-" + srcs[0].split(".")[0]), variant, SRCS + list(srcs), extra=extra, ldflags=ldflags, cxxflags=cxxflags)
    return f

SEARCH_ASSUME = ["search time is measured by a virtual CPU clock advanced at every clock() read, so runs are deterministic",
                 "gkc is compiled with GKC_VERIF_SMALL (smaller hash tables; otherwise the unchanged code), -O2"]
CHECKS = {}

def search(pid, rule, note, technique):
    CHECKS[pid] = dict(parts=[dict(build=gk("fast", "chk_search.cpp"))], level="exploration", rule=rule, technique=technique, note=note,
                       assumptions=SEARCH_ASSUME)

search("C01", "every satisfiable clause set (certified by an explicit finite model) of the listed spaces up to the listed size without pure literals, run through the real gkc main under the strategies; non-trivial: at least one literal of every clause has a resolution partner (no pure literals)",
       "exhaustive within the stated spaces of small clause sets and strategy settings; trusts the harness's model enumeration and the reading of gkc's printed verdict", "bounded-exhaustive exploration of gkc runs against enumerated finite models")
search("C02", "as C01, with equality: sets over the equality and algebra spaces with an explicit finite model",
       "exhaustive within the stated equality spaces; models of domain size <= 2 (3 where listed) certify satisfiability", "bounded-exhaustive exploration of gkc runs against enumerated finite models")
search("C03", "every contradictory set of the spaces is run and every printed proof step is checked: input steps against the input, derived steps against all interpretations of the cited steps; non-trivial: a proof was printed",
       "exhaustive within the stated spaces; each proof step is decided by enumerating all interpretations over the small domains (a step refuted there is certainly wrong)", "bounded-exhaustive exploration with a model-enumerating proof checker")
search("C04", "every contradictory set of the spaces (Herbrand certificate) is run under each complete strategy; non-trivial: minimally contradictory",
       "exhaustive within the stated spaces; strategies documented or observed as incomplete are left out", "bounded-exhaustive exploration of gkc runs against enumerated refutation certificates")

DB_ASSUME = ["the database is a private one in malloc'ed memory, the same code as for shared segments"]
def db(pid, src, rule, note, technique, level="exploration", variant="fast", assume=(), **kw):
    CHECKS[pid] = dict(parts=[dict(build=gk(variant, src, **kw))], level=level, rule=rule, technique=technique, note=note,
                       assumptions=DB_ASSUME + list(assume))

db("C19", "chk_data.cpp", "every value of the family is stored twice among all the others in three orders, alone and over a knowledge base, and decoded at the end; plus every history of storing and removing the values of four pools up to the stated depth; non-trivial: values unique by design, and states of the histories",
   "exhaustive over the stated value families (all powers of two and neighbours, all exponents, all lengths across every size limit, all splits between text and extra part) and over all histories of the pools up to the stated depth",
   "explicit-state exploration of store/remove histories and exhaustive enumeration of value families on the real database code")
db("C20", "chk_alloc.cpp", "every history of allocations and frees in each configuration up to the stated depth; after each step the whole area is walked and compared with the reference set of live objects",
   "explicit-state search (breadth first, with a visited set on the allocator state) over the real allocator; configurations: small areas with and without growth, variable and fixed length objects",
   "explicit-state model checking of allocator histories on the real code", level="model_checking")
CHECKS["C21"] = dict(parts=[dict(build=gk("fast", "chk_index.cpp")), dict(build=gk("stock", "chk_index.cpp"), name="C21stock")], level="model_checking",
    rule="every history of adding records to and removing them from an index (and of creating and dropping indexes) in each configuration up to the stated length, with a visited set on the complete index structure; in every state all lookups, ranges and the full content are compared with the reference set",
    technique="explicit-state model checking (breadth first) of index histories on the real code",
    note="explicit-state search over the real T-tree (nodes of 3 and of 8), hash and template indexes; dropping hash indexes is not implemented by the library and is left out",
    assumptions=DB_ASSUME + ["the first part is compiled with GKC_VERIF_SMALL (three values per T-tree node), the second with the original eight"])
db("C22", "chk_query.cpp", "every table of up to three records of twelve kinds under twelve index configurations with every list of up to two conditions (three on smaller tables), match records, row limits and record chains, compared with a plain scan; larger tables across node and page limits; values of all types as parameters; non-trivial: the answer is neither empty nor the whole table",
   "exhaustive over the stated tables, index configurations and condition lists; the order of values is that of C23",
   "bounded-exhaustive exploration of tables, indexes and queries on the real code against a scan")
db("C23", "chk_data.cpp", "all ordered pairs and triples of the value family, at three record depths; non-trivial: pairs of different stored values",
   "exhaustive over all pairs and triples of the stated family of values of all types",
   "exhaustive enumeration of all pairs and triples of values on the real comparison")
db("C24", "chk_data.cpp", "every day of the years 1 to 9999, every hundredth of a second of a day, every refused combination of boundary fields, every one-character damage of a text; non-trivial: each distinct date, time or refused text",
   "exhaustive over the whole calendar and clock; refusal exhaustive over the stated boundary fields and damages",
   "exhaustive enumeration of the whole state space of dates and times on the real code")

def lock(proto):
    f = gk("fast", "chk_lock.cpp", name="gk-lock%d" % proto, extra={"Db/dblock.c": ["-fsanitize=thread"]},
           ldflags=("-Wl,--wrap=nanosleep", "-Wl,--wrap=syscall"))
    return lambda build: build.with_config("lock%d" % proto, [("config.h", r"#define LOCK_PROTO \d", "#define LOCK_PROTO %d" % proto),
        ("Db/dblock.h", r"#define DEFAULT_LOCK_TIMEOUT \d+", "#define DEFAULT_LOCK_TIMEOUT 3")], lambda: f(build))
CHECKS["C25"] = dict(parts=[dict(build=lock(3)), dict(build=lock(2)), dict(build=lock(1))], level="model_checking",
    rule="every interleaving of the accesses to the lock area by the users of each configuration (scripts of read and write locks), with time-outs and interrupted waits at every waiting point; a state is the lock area and the users' stacks; in every state: exclusion; from every state the end can be reached without a time-out; at every end the lock is as it was",
    technique="explicit-state model checking of the real lock code under a controlled scheduler (all interleavings)",
    note="complete for the listed users and scripts, for each of the three lock protocols of config.h; sequentially consistent memory",
    assumptions=["memory accesses are sequentially consistent (the lock code uses x86 atomic instructions)", "a spinning user whose variables do not change is not run until they change or its time is out"])

SHM = ["-Wl,--wrap=" + x for x in ("shmget", "shmat", "shmdt", "shmctl")]
CHECKS["C18"] = dict(parts=[dict(build=gk("fast", "chk_dump.cpp", "wrapshm.c", ldflags=SHM + ["-Wl,--wrap=" + x for x in ("fopen", "fread", "fwrite", "fclose", "malloc", "db_tfqueue_rlock", "db_tfqueue_rulock")]))],
    level="fault_enumeration",
    rule="every truncation length, every changed byte, every pair of lost pages of a dump, every changed bit of the header's identification, disk full and failing calls at every point, writers around the dump's lock, complete dumps into databases of all listed sizes and states; non-trivial: the file was damaged, the call failed, or the loaded database was compared",
    technique="exhaustive enumeration of crash points, damages and faults on the real dump code",
    note="exhaustive over the stated damages of the listed dumps; single bytes are changed by the listed masks",
    assumptions=DB_ASSUME + ["shared memory of gkc's own commands is stood in for by files in a scratch directory"])

GKC_ASSUME = ["gkc is compiled with GKC_VERIF_SMALL (smaller hash tables; otherwise the unchanged code), -O2", "search time is measured by a virtual CPU clock"]
def gkc(pid, src, rule, note, technique, variant="fast", level="exploration", assume=(), **kw):
    CHECKS[pid] = dict(parts=[dict(build=gk(variant, src, **kw))], level=level, rule=rule, technique=technique, note=note, assumptions=GKC_ASSUME + list(assume))

gkc("C06", "chk_formula.cpp", "every formula of each family up to its number of connectives goes through the real clausifier, and in every interpretation of domains of one and two elements (three in the thorough run) the clauses are satisfiable by a choice of Skolem functions and definitions exactly if the formula (negated if a conjecture) is true; non-trivial: more than one clause or a clause of more than one literal",
    "exhaustive over the stated families of formulas and over all interpretations of the stated domains", "bounded-exhaustive exploration of formulas through the real clausifier, decided by model enumeration")
gkc("C07", "chk_formula.cpp", "every formula of each family is written in each syntax, with the parentheses that may be left out left out, with each role, with white space and comments at each token boundary, and split over files, texts and includes in every listed way; what gkc read is compared with what the formula means in every interpretation of domains of one and two elements; non-trivial: more than one clause or a clause of more than one literal",
    "exhaustive over the stated families, syntaxes, roles, boundaries and source splits", "bounded-exhaustive exploration of formulas, spellings and sources through the real parsers, decided by model enumeration")
gkc("C08", "chk_formula.cpp", "every formula of the family goes through each chain of conversions and what comes out is compared with what went in, in every interpretation of domains of one and two elements; every symbol of up to two characters (three in the thorough run) as constant, function, predicate, proposition and string, numbers and lists go through each chain and must meet their original spelling; non-trivial: more than one clause or literal, or a symbol",
    "exhaustive over the stated formulas, spellings and conversion chains; symbols JSON-LD-LOGIC has no spelling for (operators, ?:x, #:x, -x, ~x) are left out of the JSON chains", "bounded-exhaustive exploration of formulas and spellings through the real converters, decided by model enumeration and by proof")

gkc("C09", "chk_term.cpp", "every binary and unary built-in function and comparison on every pair of the number grid, evaluated as read, after a resolution step, after rewriting and infix; all quarters and small quotients; all trees of two operations over small values; non-numbers; which value gkc gave is read from its answers and compared with exact rational arithmetic; non-trivial: the result is a value",
    "exhaustive over the stated grid of integers and reals, operations and ways of evaluation", "bounded-exhaustive enumeration of operations and operands on the real code against exact rational arithmetic")
gkc("C10", "chk_term.cpp", "every string function on all pairs of the string family and all positions, list functions and type tests on all lists of the family, equality of all pairs of typed and untyped values, and whether facts about two values are refuted; non-trivial: the documented result is a value",
    "exhaustive over the stated strings, lists and pairs", "bounded-exhaustive enumeration of operations and operands on the real code against the documented meaning")
gkc("C11", "chk_term.cpp", "every pair of atoms over the term families meets in one clash of two unit clauses; whether it succeeds and the instance shown in the answer are compared with textbook unification; non-trivial: unifiable with a binding",
    "exhaustive over all pairs of atoms of the stated families and the listed strategies", "bounded-exhaustive enumeration of pairs of atoms on the real code against textbook unification")

gkc("C05", "chk_answer.cpp", "every set of up to two (three) facts and up to two rules of each family with each query goes through the real gkc under the strategies and requested numbers of answers; each printed answer is decided by the least Herbrand model (Horn) or by all interpretations of domains of one and two elements, and on Horn sets without functions the printed answers must cover the least model; non-trivial: the query has an answer",
    "exhaustive over the stated families, queries, strategies and requested numbers; completeness only for Horn sets without functions and the strategies that are complete there", "bounded-exhaustive exploration of facts, rules and queries on the real code against enumerated models")

gkc("C26", "chk_output.cpp", "every contradictory and satisfiable clause set of the families under each strategy, and every listed problem with answers and values of all types, is printed in each format (text, TPTP, JSON) at each print level and through a strict parser of that format; verdict, answers and proof steps must be the same; every symbol, string and statement name of up to two (three) characters of the character family in constants, functions, predicates, strings and names, in two input languages, must be found in each output as given; every message about a wrong input is one JSON object; non-trivial: a proof, a spelling or a message was compared",
    "exhaustive over the listed problems, formats, levels, spellings and wrong inputs; spellings JSON-LD-LOGIC cannot express are only checked for validity", "bounded-exhaustive exploration of outputs of the real code through strict parsers")
gkc("C27", "chk_arith.cpp", "every clause set of the families (comparisons and equations of linear terms, a constant, a function, a predicate, numbers of all sizes) goes through the real gkc under each strategy and arithmetic instantiation mode; clauses are decided over the real numbers exactly (a point in every cell of the arrangement of their hyperplanes) in 48 to 180 interpretations: no proof of a set true in one of them, and no proof step from true parents to a false conclusion; non-trivial: the set is true in a listed interpretation, or a step has parents true in one",
    "exhaustive over the listed clause sets, strategies and interpretations; linear integer arithmetic only: no quotients, no reals, no products of variables; a set with no listed model is checked by the steps of its proof", "bounded-exhaustive exploration of clause sets with arithmetic on the real code, decided exactly over the reals")
WRAPMEM = ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free")]
gkc("C12", "chk_env.cpp", "for every contradictory and satisfiable clause set of the families, five settings (one run, several runs, propositional and instance generation) and every clock read of the run, the clock jumps by 0.55, 0.75, 0.87, 0.95, 1.2 and 10000 limits at that read; for some sets the time limit signal comes at every memory call and clock read; each outcome is one result, a proof only of an unsatisfiable set and checked step by step by model enumeration; non-trivial: the jump took the proof away",
    "exhaustive over the clock reads of the listed problems and settings and the six jumps; proofs with steps of the built-in propositional solver (printed as numbers) are checked by their verdict only", "exhaustive enumeration of the points at which time runs out, on the real code",
    ldflags=WRAPMEM, level="fault_enumeration")
KB_ASSUME = GKC_ASSUME + ["shared memory is stood in for by files in a scratch directory, attached read-only as gkc asks"]
CHECKS["C16"] = dict(parts=[dict(build=gk("fast", "chk_kb.cpp", "wrapshm.c", ldflags=SHM))], level="exploration",
    rule="every way of splitting every contradictory and satisfiable clause set of the families into a knowledge base and a query, under each strategy: no proof of a satisfiable set, each proof checked step by step by model enumeration, a proof whenever the strategy is complete and proves the plain input; every pair of values of all types in nine shapes of knowledge base and query compared with the plain run; answers of fact and rule families decided by the least model; non-trivial: a proof was found",
    technique="bounded-exhaustive exploration of splits into knowledge base and query on the real code, decided by model enumeration and against the plain run",
    note="exhaustive over the listed families, splits, values and strategies", assumptions=KB_ASSUME)
CHECKS["C17"] = dict(parts=[dict(build=gk("fast", "chk_kb.cpp", "wrapshm.c", ldflags=SHM))], level="exploration",
    rule="every listed query (also wrong ones) under every strategy against every listed knowledge base attached at each of four addresses: the run ends without a fault on the read-only segment, all used bytes of the segment stay as they were, and verdict and answers do not depend on the address; non-trivial: the knowledge base was attached",
    technique="exhaustive exploration of queries, strategies and attach addresses on the real code with a byte comparison of the segment",
    note="exhaustive over the listed knowledge bases, queries, strategies and addresses", assumptions=KB_ASSUME)
