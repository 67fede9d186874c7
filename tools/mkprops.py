"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

J = 'jsonclasses/'
M = 'jsonclasses/modifiers/'

P = [
dict(id='C01', title='Write rules hold against untrusted input on every path',
 statement='Values arriving through construction or batch setting, whether under a field name, its JSON name, a reference id key, a dotted or bracketed key path, or inside nested objects, never change a field marked read-only or internal, never replace a non-null value of a write-once field, and never null a write-nonnull field. Fields without such a mark take the given value. The trusted batch update and plain attribute assignment are not restricted by these marks.',
 over=['inputs','programs','histories'], qt='every class schema, every input mapping, every sequence of construct/set/update/assign calls',
 why='Tests set one marked field once, on a flat object, under its plain name; they never combine marks with nesting, key paths, reference ids, JSON names or histories.',
 files=[M+'instanceof_modifier.py', J+'jsonclassify.py', J+'types.py', J+'fdef.py'],
 mech=[('write rule gate', M+'instanceof_modifier.py:transform'), ('key path setter', J+'jsonclassify.py:_keypath_set'), ('trusted update', J+'jsonclassify.py:update')]),
dict(id='C02', title='Strict classes reject unknown keys before changing anything',
 statement='With strict input on, for the class or for the field holding a nested object, any input mapping at any depth that contains a plain key (no dotted or bracketed path) which is not a field name, its JSON name or a reference key of that class is rejected with a validation error naming the full key path; the object whose mapping was rejected keeps its previous content. With strict input off unknown keys are ignored and all known keys still take effect.',
 over=['inputs','configurations','histories'], qt='every schema, strictness setting (class, field), nesting of mappings, set of known and unknown keys',
 why='Tests try one unknown key at the top level; strictness inherited, overridden per field and nested in lists or dicts is not enumerated.',
 files=[M+'instanceof_modifier.py', J+'cdef.py', M+'strict_modifier.py'],
 mech=[('strictness check', M+'instanceof_modifier.py:_strictness_check'), ('available names', J+'cdef.py:available_names')]),
dict(id='C03', title='Hidden fields never appear in JSON output',
 statement='The JSON form of an object, at every depth and through lists, dicts and references, contains neither value nor reference id of a field marked write-only, internal or temporary (write-only and internal ones only when explicitly asked for), nor any field outside the picked subset of a partial object; every other non-null field does appear, and null fields appear only when null output is on.',
 over=['inputs','programs','configurations'], qt='every schema, object tree and output option',
 why='Tests look at single flat fields; the combination of nesting depth, references, partial objects and options is unbounded.',
 files=[M+'instanceof_modifier.py', J+'jsonclassify.py', J+'encoder.py'],
 mech=[('read rule gate', M+'instanceof_modifier.py:tojson'), ('pick/omit', J+'jsonclassify.py:pick')]),
dict(id='C04', title='A modifier chain runs in order, split at its eager and presave marks',
 statement='When input is taken, the part of a field\'s modifier chain before its last eager mark is transformed and validated step by step in order, the rest up to the first presave mark is only transformed, and nothing after it runs; validating checks exactly the part between those marks; saving applies the part after the presave mark, validates each step and stores the result. A failure in the eager part prevents the value from being stored.',
 over=['programs','inputs','histories'], qt='every arrangement of transformers, validators, eager and presave marks in a chain, every input value',
 why='Tests use single hand-written chains; the property quantifies over all arrangements of marks and steps.',
 files=[M+'chained_modifier.py', M+'eager_modifier.py', M+'preserialize_modifier.py', J+'types.py'],
 mech=[('chain partition', M+'chained_modifier.py:ChainedModifier')]),
dict(id='C05', title='Validation accepts an object exactly when every checked field is valid',
 statement='Validating an object fails exactly when some field that must be checked (all fields of a new object, the modified data fields of a persisted object, and the same for every object reachable through nested objects, references and collections) violates its rules, also when objects refer to each other in cycles. The reported key paths name violating fields only: one of them normally, every violating field when all fields are requested. The boolean validity test agrees and neither call changes the object.',
 over=['inputs','programs','histories','configurations'], qt='every schema, object graph (cyclic included), modification history, all-fields setting',
 why='Tests assert single messages for single fields; completeness of the reported set and cycles across collections are not enumerated.',
 files=[M+'instanceof_modifier.py', M+'collection_type_modifier.py', M+'chained_modifier.py', J+'vmsgcollector.py', J+'ctx.py', J+'mgraph.py'],
 mech=[('object validation', M+'instanceof_modifier.py:validate'), ('visited marks', J+'mgraph.py'), ('collection validation', M+'collection_type_modifier.py:validate')]),
dict(id='C06', title='Owned lists and dicts behave exactly like builtin ones',
 statement='Every operation on a list or dict held by an object, at any nesting depth, has the same result, the same effect on the content (including element order) and the same error as on the corresponding builtin container; containers put in are copied in by value. An operation that raises leaves the content unchanged.',
 over=['histories','inputs'], qt='every sequence of container operations with every argument (negative indices, extended slices, generators, nested values)',
 why='Tests call each operation once with simple arguments on flat containers; sequences, nested values, negative and extended indices are unbounded.',
 files=[J+'olist.py', J+'odict.py', J+'outils.py', J+'jsonclassify.py'],
 mech=[('owned list', J+'olist.py:OwnedList'), ('owned dict', J+'odict.py:OwnedDict'), ('attach', J+'jsonclassify.py:__olist_add__')]),
dict(id='C07', title='No change of a persisted object goes unreported',
 statement='On a persisted object, any assignment of a different value and any in-place change of a contained list or dict at any depth makes the object report itself modified and lists the field or container path, persisted listing excluding temporary fields; nothing else does: reads, failed operations and assigning an equal value report nothing. New objects report no modification, and marking an object as in step with the store clears all reports.',
 over=['histories','inputs'], qt='every history of assignments, container operations and marks',
 why='A missed notification shows only for a particular operation at a particular depth after a particular history; tests sample a few.',
 files=[J+'jsonclassify.py', J+'olist.py', J+'odict.py', J+'outils.py'],
 state=[('modified fields', 'paths changed since last in step with the store', J+'jsonclassify.py:modified_fields')],
 mech=[('attribute tracking', J+'jsonclassify.py:__setattr__'), ('container notifications', J+'jsonclassify.py:__olist_add__')]),
dict(id='C08', title='Reset restores exactly the persisted content',
 statement='For classes that keep previous values, every modified data field has a remembered previous value equal to its content when the object was last in step with the store, no matter how often or how deeply it changed since; resetting restores precisely that content and clears every modification report. Resetting a new object or a class that does not keep previous values fails and changes nothing.',
 over=['histories'], qt='every history of assignments, in-place container changes, marks and resets',
 why='Correctness depends on the first change being captured before it happens, for every operation; tests check isolated operations.',
 files=[J+'jsonclassify.py', J+'olist.py', J+'odict.py', J+'outils.py'],
 mech=[('previous values', J+'jsonclassify.py:__olist_will_change__'), ('reset', J+'jsonclassify.py:reset')]),
dict(id='C09', title='Both ends of a relation always agree',
 statement='After any sequence of assignments and list operations on related objects (one-to-one, one-to-many, many-to-many, in either direction), an object refers to another over a relation exactly when that other refers back over the opposite side, an object on the single side of a relation has at most one partner, and no partner is lost or duplicated that was not replaced or removed.',
 over=['histories'], qt='every history of link/unlink operations over every relation shape and population of objects',
 why='Tests make one or two links; re-linking chains that steal partners between several objects are not enumerated.',
 files=[J+'jsonclassify.py', J+'jfield.py', J+'olist.py'],
 mech=[('link', J+'jsonclassify.py:__link_field__'), ('unlink', J+'jsonclassify.py:__unlink_field__'), ('opposite side', J+'jfield.py:foreign_field')]),
dict(id='C10', title='Stored reference ids always name the referenced objects',
 statement='For every relation end that stores ids, after any sequence of operations the stored id (or id list) names exactly the linked object(s), besides ids that were assigned without a loaded partner, which stay; assigning an id detaches an object with a different id, clearing either the id or the object clears the other, and list operations keep objects and ids in step.',
 over=['histories'], qt='every history of object-side and id-side operations',
 why='Tests check one assignment per direction; interleavings of object-side and id-side changes are unbounded.',
 files=[J+'jsonclassify.py'],
 mech=[('id side', J+'jsonclassify.py:__setattr__'), ('list side', J+'jsonclassify.py:__olist_add__')]),
dict(id='C11', title='Linked objects share one identity map, one object per identity',
 statement='Objects connected through relations always share a single object graph that contains each of them under its class and primary id, a graph never holds two different objects with the same class and id (linking such objects fails), and inside one input the same class and id always yields the same object.',
 over=['histories','inputs'], qt='every population of objects, history of links, and input with repeated ids',
 why='Merging is only exercised by tests on two or three objects; identity across arbitrary merges and inputs is not.',
 files=[J+'ograph.py', J+'mgraph.py', J+'jsonclassify.py', M+'instanceof_modifier.py'],
 mech=[('merge', J+'ograph.py:merged_graph'), ('input identity', M+'instanceof_modifier.py:transform')]),
dict(id='C12', title='Saving runs its phases in order and stops at the first failure',
 statement='Saving checks permission, then runs the create (new object) or update (persisted object) callbacks, then validates unless told not to, then applies on-save transformations of every new or modified reachable object exactly once, then writes, then saves every object unlinked meanwhile; deleting checks permission, runs delete callbacks, then deletes. When a phase fails no later phase runs and the failure reaches the caller.',
 over=['histories','configurations','fault_sequences'], qt='every combination of callbacks, failing phases, object states and relations',
 why='Tests check that single callbacks fire; relative order and the effect of a failure in each phase are not enumerated.',
 files=[J+'jsonclassify.py', M+'instanceof_modifier.py', M+'setonsave_modifier.py'],
 mech=[('save', J+'jsonclassify.py:save'), ('delete', J+'jsonclassify.py:delete'), ('on-save', M+'instanceof_modifier.py:serialize')]),
dict(id='C13', title='Guarded actions need an accepted operator',
 statement='If a class declares checks for creating, updating, deleting or reading, saving, deleting or outputting an object of it succeeds only with an operator present and every check of that action passing (returning nothing or true, or a type chain that validates); otherwise it fails as unauthorized and has no effect. A new object is judged by the create checks, a persisted one by the update checks, and classes without checks are unrestricted; per-field checks restrict exactly their field.',
 over=['inputs','configurations','histories'], qt='every set of checks and verdicts, operators, object states and actions',
 why='Tests try single checks with single verdicts; combinations of several checks and kinds of verdict are not.',
 files=[J+'jsonclassify.py', J+'jsonclass.py', M+'canc_modifier.py', M+'canu_modifier.py', M+'canr_modifier.py', M+'op_modifier.py'],
 mech=[('object checks', J+'jsonclassify.py:_can_cu_check_common'), ('operator assignment', J+'jsonclassify.py:opby')]),
dict(id='C14', title='JSON output read back gives an equal object',
 statement='For every class whose fields have JSON-representable types and every valid object of it (instants in UTC with millisecond precision), feeding its JSON output back into the class yields an object with equal field values, under every key naming strategy, and producing JSON again gives the identical output; producing JSON changes nothing in the object.',
 over=['inputs','programs','configurations'], qt='every schema, every valid value, every key strategy',
 why='Tests check output and input separately on single values; the round trip over all values and schemas is not tested.',
 files=[M+'datetime_modifier.py', M+'date_modifier.py', M+'enum_modifier.py', M+'instanceof_modifier.py', J+'keypath.py', J+'jconf.py'],
 mech=[('json form', M+'instanceof_modifier.py:tojson'), ('key strategy', J+'jfield.py:json_name')]),
dict(id='C15', title='Class names resolve within their own graph only',
 statement='Within one class graph each name denotes at most one class (and at most one enum): defining a second one fails with a redefinition error and leaves the first in place, while the same name in different graphs denotes independent classes, and no graph given means the default graph. A reference by name, before or after the definition, in an annotation, an item or union type or a type description, resolves to the class or enum of that name in the graph of the class that has the field (inherited fields included), also after an attempt that failed because the name was not defined yet, and an undefined name is an error when used. A class option (strictness, key naming, null output, validating all fields, abstract, resetting) takes its default unless the class itself sets it, whatever other classes set.',
 over=['programs','configurations'], qt='every order of definitions, names, graphs and option settings',
 why='Tests define a fixed handful of classes in one order; orders, forward references and graph combinations are not enumerated.',
 files=[J+'cgraph.py', J+'jsonclass.py', J+'jsonenum.py', J+'jconf.py', J+'rtypes.py'],
 mech=[('registry', J+'cgraph.py:put'), ('options', J+'jconf.py')]),
dict(id='C16', title='Every validator accepts exactly the values its name promises',
 statement='Each validation modifier accepts null (unless it is about presence) and accepts any other value exactly when the value satisfies the documented predicate for its arguments (bounds inclusive as documented, arguments given literally, as functions of the object or as type descriptions alike), and reports a validation error on the field otherwise. Validators never change the value.',
 over=['inputs','programs'], qt='every validator, every argument and every value of its domain',
 why='Tests sample one accepted and one rejected value per validator, rarely the boundaries, empty values or computed arguments.',
 files=[M, J+'types.py'],
 mech=[('validators', M), ('argument resolution', M+'modifier.py:resolve_param')]),
dict(id='C17', title='Every transformer computes exactly its documented function',
 statement='Each transformation modifier maps every value of its domain to the documented result, leaves null untouched unless it exists to replace or convert null, and leaves values outside its domain unchanged; chained transformers compose left to right.',
 over=['inputs','programs'], qt='every transformer, argument and value, and chains of them',
 why='Tests sample one value per transformer; boundaries, empty values, null and compositions are not enumerated.',
 files=[M, J+'types.py'],
 mech=[('transformers', M), ('composition', M+'chained_modifier.py:transform')]),
dict(id='C18', title='Dates and times keep their instant and follow the calendar',
 statement='Date and datetime fields read ISO text (with or without time, fraction, Z or offset) as exactly that day or instant, reject other text, and write it as UTC milliseconds that read back equal; boundary modifiers move to the first instant of the current or following second, minute, hour, day, month or year of any date or datetime, keeping its timezone; before and after accept exactly the values strictly on the stated side of the bound, dates and datetimes, naive (UTC) and aware ones alike; formatted output shows the same day and time; the minimum update interval accepts exactly the changes at least that long after the old value; creation and update timestamps are the current UTC time. All of this holds for every date including month ends, leap days and year boundaries.',
 over=['inputs'], qt='every calendar date and time, every modifier',
 why='Tests use one or two dates; month ends, leap years and year boundaries are where errors hide.',
 files=[M+'date_modifier.py', M+'datetime_modifier.py', M+'before_modifier.py', M+'after_modifier.py', M+'fmtd_modifier.py', J+'types.py'],
 mech=[('reading and writing', M+'datetime_modifier.py'), ('comparisons', M+'before_modifier.py'), ('boundaries', J+'types.py:tobomon')]),
dict(id='C19', title='Enum fields accept and emit exactly the declared forms',
 statement='An enum field accepts an input exactly when it is a member, or denotes one in an accepted form: the name by default, or the forms declared on the field or else on the enum (value, name, lowercase name in any case; several of them tried in that order); it yields that very member and otherwise fails validation without inventing or dropping a value. Output is the member in the declared output form (the name by default), which the field accepts back whenever that form is among the accepted ones.',
 over=['inputs','configurations','programs'], qt='every enum, input form setting, output form setting, input value',
 why='Tests check single settings with valid inputs; combinations of forms with ambiguous or unknown inputs are not.',
 files=[M+'enum_modifier.py', J+'jsonenum.py', J+'fdef.py'],
 mech=[('enum input and output', M+'enum_modifier.py'), ('declared forms', J+'jsonenum.py')]),
dict(id='C20', title='A type annotation means the same in every spelling',
 statement='A field declared by a plain annotation, by the same annotation as text, or by the explicit type description it stands for behaves identically when reading, validating and writing values, for every nesting of lists, dicts, optionals (null accepted exactly there), unions, enums and class names; a value of a union is read as the first alternative that accepts it; annotations that denote no supported type are rejected.',
 over=['programs'], qt='every annotation of the grammar, in every spelling',
 why='Tests parse a fixed list of annotations, mostly flat; nesting depth is unbounded.',
 files=[J+'rtypes.py', J+'fdef.py', J+'types.py', M+'union_modifier.py'],
 mech=[('annotation reading', J+'rtypes.py')]),
dict(id='C21', title='Objects and classes never share state by accident',
 statement='Default values, type descriptions and class options are never shared mutably: changing one object, one field value or one derived type description never changes another object, a later created object, the class defaults or the description it was derived from, and neither changing a container that was passed in nor changing a JSON form that was handed out changes an object.',
 over=['histories','programs'], qt='every history of creations and mutations, every derivation of type descriptions',
 why='Sharing shows only when two consumers are mutated in sequence; tests use a fresh class per test.',
 files=[J+'jfield.py', M+'default_modifier.py', J+'types.py', M+'chained_modifier.py', J+'jconf.py'],
 mech=[('defaults', M+'default_modifier.py'), ('immutable chains', J+'types.py')]),
dict(id='C22', title='Configuration lookup follows paths and environment values',
 statement="Reading the user configuration by key path (dotted or bracketed, from the root or from a part read before) returns the value that config.json in the working directory has at that path, with map keys read in snake case and texts of the form environ['NAME'] replaced by that environment variable at any depth; an undefined variable is an error on loading; a path that leads nowhere (missing key, index out of range, key of a list, below a plain value, no file) yields nothing rather than an error; lookups never alter the configuration.",
 over=['inputs','configurations'], qt='every configuration tree, key path and environment',
 why='Tests read a handful of paths from one fixture.',
 files=[J+'uconf.py'],
 mech=[('lookup', J+'uconf.py')]),
dict(id='C23', title='Calculated fields always show what their getter computes',
 statement="A calculated field reads at any time as what its getter (a function or a type description) computes from the current content of its own object, including other calculated fields, loaded references and the operator; it is output and validated like other fields (also on a persisted object), but it is never stored nor reported as modified, and input under its name changes nothing. Assigning it runs its setter (a function or a type description) with the given value, changing and reporting exactly what the setter changes, and fails without effect when it has no setter.",
 over=['programs','histories'], qt='every getter and setter expression, every history of assignments, input, saves and operators, several objects of the class',
 why='Tests read each getter once after construction; they never change the object in between, chain calculated fields, or look at tracking and input.',
 files=[J+'jsonclassify.py', M+'getter_modifier.py', M+'setter_modifier.py', M+'fval_modifier.py', M+'assign_modifier.py', M+'passin_modifier.py', M+'instanceof_modifier.py'],
 mech=[('computed reads', J+'jsonclassify.py:__getattribute__'), ('setters', J+'jsonclassify.py:__setattr__')]),
dict(id='C24', title='Rules about operator and object identify objects rightly',
 statement="Setting the operator of a new object records its id (or that of the object the given function derives from it) in every reference declared to hold it, and in no other, while a persisted object keeps its references; such a reference without id makes a new object, or one whose reference changed, invalid. A permission check written as a type description over the object, the operator, their fields and references (loaded, known by id only, or fetched) accepts exactly when every test in it accepts the value it computes; 'this object' and 'that object' mean the identical object or one of the same class with the same non-null id, and class tests name classes of the graph of the guarded class. Callbacks written as type descriptions act on the saved or deleted object like functions do.",
 over=['programs','histories','inputs'], qt='every check, callback and operator-recording declaration, every operator (of the same or another class, stored or not, the object itself), every history',
 why='Tests cover one check each with one operator; equal ids across classes, missing ids, references known by id only and classes of several graphs are not tried.',
 files=[J+'jsonclassify.py', M+'asop_modifier.py', M+'asopd_modifier.py', M+'isobj_modifier.py', M+'isthis_modifier.py', M+'isobjof_modifier.py', M+'getop_modifier.py', M+'this_modifier.py', M+'fval_modifier.py', M+'fobj_modifier.py'],
 mech=[('operator', J+'jsonclassify.py:opby'), ('permission checks', J+'jsonclassify.py:_can_cu_check_common'), ('callbacks', J+'jsonclassify.py:_run_on_create_callbacks')]),
dict(id='C25', title='Fetching what the store knows is not a change',
 statement="Including a reference field of an object asks the store for exactly the objects recorded for it (by the ids the object records, or by its own id where the other end or a join table records them) and links them on both ends, replacing nothing that was already linked; completing a partial object brings in the values it lacks. Neither alters the content, the recorded ids, the modification report or the remembered previous values of any object, so that validating, resetting, outputting and saving afterwards do what they would have done before; including again, including an empty reference or a field that is no reference changes nothing.",
 over=['histories','programs','configurations'], qt='every relation shape, every stored population, every history of fetching, changing, marking, resetting and saving',
 why='There are no tests of fetching; what it leaves behind shows only in later calls on objects at either end.',
 files=[J+'jsonclassify.py', J+'jfield.py', J+'olist.py'],
 mech=[('fetching references', J+'jsonclassify.py:include'), ('fetching missing values', J+'jsonclassify.py:complete'), ('linking', J+'jsonclassify.py:__link_field__')]),
]

NOT_APPLICABLE = {}

LEVEL_NOTE = {
 'owned': 'TLC explores every operation sequence to a stated depth over small containers and checks the invariants; every explored transition is executed on real objects and compared, and long random executions of real objects are accepted by the same specification.',
}


def main():
    import importlib.util
    spec = importlib.util.spec_from_file_location('chk', os.path.join(HERE, 'tools', 'registry.py'))
    reg = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(reg)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['qt']},
                   'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'],
                               'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                               'observe_at': p.get('obs', ['public call return']),
                               'hook_needed': None}}
            if 'state' in p:
                rec['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps(rec) + '\n')
    checks, na = [], []
    for p in P:
        d = reg.DRIVERS.get(p['id'])
        if d is None:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'its check is still being built')})
            continue
        checks.append({'property': p['id'],
                       'quick_cmd': f'./check {p["id"]} --tier quick',
                       'thorough_cmd': f'./check {p["id"]} --tier thorough',
                       'evidence_file': f'evidence/{p["id"]}.json',
                       'technique': 'TLA+ specification model-checked with TLC; conformance of the code by replaying specification behaviours and validating recorded executions',
                       'level': 'model_checking',
                       'level_note': reg.NOTES[d]})
    man = {'version': 1, 'setup_cmd': 'bash ./setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'Specification in TLA+ (spec/), conformance drivers in drivers/. No hooks in /repo: the public API exposes the state.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
