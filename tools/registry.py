"""Which driver decides which property."""
DRIVERS = {
    'C06': 'owned', 'C07': 'owned', 'C08': 'owned',
    'C01': 'core', 'C02': 'core', 'C03': 'core', 'C05': 'core', 'C14': 'core', 'C15': 'reg', 'C21': 'core', 'C22': 'user', 'C23': 'objs', 'C24': 'objs',
    'C04': 'chain', 'C12': 'life', 'C13': 'life', 'C16': 'mods', 'C17': 'mods', 'C18': 'cal', 'C19': 'enums', 'C20': 'anns',
    'C25': 'fetch', 'C09': 'links', 'C10': 'links', 'C11': 'links',
}
NOTES = {
 'fetch': 'JFetch.tla specifies objects that know references by id or not at all, a store that knows the relations, and fetching. TLC explores every sequence of fetching, changing, marking, resetting, saving and moving references to a stated depth over every relation shape (one-one, one-many from either end, many-many by ids or join table, one-way, within one class) and checks that fetching only adds links, exactly those stored; every explored transition is executed on real objects whose store is a stand-in answering queries from the stored pairs; random larger populations with several relations and longer histories are recorded from real objects and accepted step by step by the same specification. Bounded, not a proof.',
 'objs': 'JObj.tla specifies documents with calculated fields, references recorded from the operator, and permission checks and callbacks written as type descriptions over object and operator. TLC explores every operation sequence to a stated depth over catalogued getters, setters, checks and callbacks and checks the promises in every step; every explored transition is executed on real classes (descriptions and functions, inherited fields, the same check used on two graphs); random declarations with longer random histories are recorded from real objects and accepted step by step by the same specification. Bounded, not a proof.',
 'reg': 'JReg.tla specifies the registry: accepted and refused definitions, resolution of names by graph, inherited fields, effective options. TLC explores every sequence of definitions to a stated depth over small catalogues and checks uniqueness, scoping, that later definitions settle nothing anew, and isolation of graphs; every explored transition, including every query in every state, is executed against real classes; longer random histories over several graphs (the default one included) are recorded from real classes and accepted step by step by the same specification. Bounded, not a proof.',
 'user': 'JUser.tla specifies reading of the configuration file (snake case keys, environment texts) and lookup by key path. TLC loads every catalogued and random tree and asks every short path over its keys, checking that every path of the file is found, that nothing else is, that lookups compose and that environment texts are replaced; every lookup is executed twice on the real code in a scratch working directory in random spellings, from the root and from parts; longer random lookups in random trees are recorded and accepted or rejected by TLC. Bounded, not a proof.',
 'cal': 'JCal.tla gives dates, datetimes with offsets and ISO text their meaning on the proleptic calendar (days counted from the civil calendar in the specification itself). TLC evaluates reading, every boundary mark, comparisons and output on a grid of month ends, leap days, year ends, offsets and fractions and checks promises stated independently (a boundary is the greatest unit start not after the value, the next one is later and nothing lies between, comparison is the order of instants, what is written reads back); every evaluated state is executed on real objects (fields, list items; arguments literal, computed, described); long random chains over random dates of years 1 to 9998 with random offsets are recorded from real objects and accepted or rejected by TLC. Bounded, not a proof.',
 'enums': 'JEnum.tla specifies reading and writing of enum members. TLC enumerates every small enum shape (names colliding with values, lowercase names and mixed-type values), every input form and output form setting on the field and on the enum, and every input, and checks that exactly members come out, that no accepted form is dropped and that declared output reads back; every state is executed on real enum fields, list items and dictionary values; random larger enums are recorded and accepted or rejected by TLC. Bounded, not a proof.',
 'anns': 'JTypes.tla specifies the annotation grammar, what an annotation means, and how a field of that meaning reads, checks and writes values. TLC checks that every spelling of every catalogued or random type parses to the same meaning and that reading, checking and writing keep their promises; every type is then declared on real classes in eight textual spellings, six evaluated ones and the explicit description, and every one must read, check and write every value as the specification says. Bounded, not a proof.',
 'chain': 'JChain.tla specifies what every modifier chain runs, in which order and with which value, on input, validation and save. TLC explores every chain up to a stated length over 13 modifier kinds under every short operation sequence and checks the promise stated over positions in the chain; every explored transition is executed on real classes; long random chains (nested chains, lists, dicts, several fields) are run on the real code and every recorded step is accepted by the specification. Bounded, not a proof.',
 'core': 'JCore.tla specifies object construction, input, key paths, JSON output, validation and picks for any class description. TLC explores every operation sequence to a stated depth over small classes and checks, in every step, the promise stated declaratively (independently of the interpreter); every explored transition is executed on real objects and compared; random class descriptions with random histories run on the real code are accepted step by step by the same specification. Bounded, not a proof.',
 'owned': 'TLC explores every sequence of container and object operations to a stated depth over small containers and checks the tracking and reset invariants; every explored transition is executed on real objects and compared; long random executions of real objects, deeper and wider than the model, are accepted step by step by the same specification. Bounded, not a proof.',
 'links': 'TLC explores every sequence of link operations to a stated depth for the relation shapes of drivers/links.py over small populations and checks symmetry, id and graph invariants in every state; every explored transition is executed on real objects; longer random executions over larger populations are accepted step by step by the same specification. Bounded, not a proof.',
 'mods': 'JMods.tla gives every validating and transforming mark its meaning over exact rationals, text (code points), lists and salted passwords, and the meaning of a chain of marks. TLC evaluates every mark with every catalogued argument on every catalogued value (and pairs of marks) and checks algebraic promises stated independently of the definitions (order predicates derived from min/max, prefix/suffix duality, idempotence, inverses, rounding bounds, split/join); every evaluated state is executed on real objects, with arguments given literally, as functions of 0, 1 and 2 parameters and as type descriptions; random longer chains in fields, list items and dictionary values, with mutated e-mail addresses, URLs, colours and passwords, are recorded from real objects and accepted or rejected by TLC.',
 'life': 'JLife.tla specifies saving, deleting, completing, validating and reading objects with permission checks, callbacks, on-save steps, failing writes and unlinked objects. TLC explores every operation sequence to a stated depth over small configurations and checks the phase order and the permission promise, stated over the call log; every explored transition is executed on real objects and the calls, the outcome and all object state compared; random configurations with longer random histories are run on the real code and accepted step by step by the same specification. Bounded, not a proof.',
}
