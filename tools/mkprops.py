"""Writes /verif/properties.jsonl (kept as a script so statements and anchors stay readable)."""
import json, os
B='properties/basic.py'; BB='properties/base/base.py'; BC='properties/base/containers.py'
BI='properties/base/instance.py'; BU='properties/base/union.py'; H='properties/handlers.py'
L='properties/link.py'; M='properties/math.py'; U='properties/utils.py'; IM='properties/images.py'
XS='properties/extras/singleton.py'; XT='properties/extras/task.py'; XU='properties/extras/uid.py'; XW='properties/extras/web.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=x) for x in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p('C01','Assignment stores only validated values; a rejected assignment changes nothing',
 "Assigning to a Property attribute stores (and later reads back) exactly the value its validate returned, possibly replaced by an attribute validator through change['value'], and touches no other property value. If the property's validate or any attribute validator raises, the stored values are exactly as before, the exception propagates and no observer has been called. Assigning undefined or deleting removes the value so that it reads as None; immutable (Gettable) properties reject assignment.",
 ['inputs','histories'],"every property set, every stored state, every assigned value, every validate outcome, any number of validators with any outcome",
 "A test fixes one property type and a couple of values; the guarantee is over all property types, values, validators and prior states, including the failing ones.",
 [B,BB,H],[('fset/fget/fdel of get_property','properties/basic.py Property.get_property, GettableProperty.get_property'),('_set, _get, _notify','properties/base/base.py HasProperties')],
 ['HasProperties._backend'],['attribute access','instance._backend'])
p('C02','Change notification protocol: who is called, when, in which order, with what',
 "One assignment or deletion calls, on that instance only, first every validate listener of that name before anything is stored, then after storing every observe_change listener if and only if the value changed (set, unset, or not prop.equal), then every observe_set listener, each exactly once and in registration order. Every listener gets the change dict with that property's name, the previous value (undefined when unset), the new value (undefined when deleted) and the mode of its phase. A listener registered for several names (or everything) fires for each of these names and for no other; handlers registered on an instance do not affect other instances.",
 ['histories','inputs'],"every listener population, every previous and new value, every property name, set and delete",
 "Tests count a few notifications; order, exactly-once and payload have to hold for every listener population and value pair.",
 [H,BB],[('_set, _notify','properties/base/base.py HasProperties'),('_get_listeners, _set_listener, Observer, observer, validator','properties/handlers.py')],
 ['HasProperties._listeners'],['listener calls'])
p('C03','Listener-disabling contexts are scoped, nest, and restore on every exit',
 "Inside listeners_disabled (validators_disabled, observers_disabled, or a chosen set of types) exactly the requested listener types, plus those already disabled by an enclosing context, are not called; all other listeners still are. Leaving the context, normally or by an exception, restores exactly the set disabled before it was entered, also when contexts are nested or the same context object is re-entered. Property validation itself is never disabled; unknown listener types are rejected with TypeError.",
 ['histories','configurations'],"every nesting of contexts, every disable type, normal and exceptional exits",
 "Nesting depth, re-entry and exceptions multiply; tests try one nesting each.",
 [H],[('listeners_disabled and subclasses','properties/handlers.py'),('_get_listeners','properties/handlers.py')],['listeners_disabled._quarantine'])
p('C04','Numeric properties: result type, tolerance, inclusive range, ValueError only',
 "For every input, Boolean, Integer, Float and Complex validate either returns a value of the property's type or raises ValueError (ValidationError) and nothing else. Without cast the returned number is within 1e-9 of the input (and Boolean accepts only booleans); Integer and Float results lie within the inclusive [min, max] (nan, which no bound orders, excepted), with or without cast, and min <= max is enforced when bounds are set. Validating a returned value again returns the same value (up to floating-point rounding), and a value accepted by validate is equal to itself under the property's equal.",
 ['inputs','configurations'],"every Python value and every configuration of min, max and cast",
 "The input space is all Python values, including infinities, huge integers, numpy scalars and strings; tests try a dozen.",
 [B],[('Boolean/Integer/Float/Complex.validate, equal, min/max/cast setters','properties/basic.py'),('_in_bounds','properties/basic.py')])
p('C05','String, StringChoice and URL: accepted values, normalisation and choices',
 "String accepts exactly the strings its regex (searched) matches and returns them stripped of the strip characters and then in the requested case; every other input raises ValidationError, a ValueError. StringChoice returns a key of choices, the one the input or one of its aliases matches (ignoring case unless case_sensitive), rejects everything else, and its choices setter rejects duplicates and non-strings. URL accepts exactly strings with a scheme and network location and drops parameters/query and fragment exactly when configured to.",
 ['inputs','configurations'],"every input value, every choices dictionary, strip, case, regex and URL configuration",
 "Unbounded strings and choice tables; tests try a few examples of each.",
 [B,XW],[('String.validate, StringChoice.validate and choices setter','properties/basic.py'),('URL.validate','properties/extras/web.py')])
p('C06','Color, DateTime and Uuid coerce to canonical values or raise ValueError',
 "Color returns a tuple of three integers in 0..255 equal to the RGB value denoted by the list, 3/6-digit hex string or web colour name given, and rejects everything else with ValidationError, a ValueError. DateTime returns datetimes unchanged and parses the two documented formats; Uuid accepts exactly UUID instances and generates a fresh UUID per instance. Validating a result again returns it unchanged, and for each of them JSON conversion followed by from_json gives the value back (DateTime to the second).",
 ['inputs'],"every input value; every list length and element",
 "All strings and sequences are inputs; tests try a handful.",
 [B],[('Color.validate, DateTime.validate/to_json/from_json, Uuid','properties/basic.py')])
p('C07','Containers validate every element into a fresh container, and their lengths',
 "Tuple, List, Set and Dictionary validate accept a container of their type (or, with coerce, list/tuple/set/array contents, a single value becoming a length-1 container) and return a new container of the right class whose elements are exactly the element property's validated results, in order, never the caller's own mutable container (an immutable tuple may be returned as it is); if any element (key or value) is rejected the whole value is rejected with ValueError. Length bounds are inclusive and enforced, together with every element's own assert_valid, when the owner is validated. The input container is not modified.",
 ['inputs','configurations'],"every container length and content, every element property, every min/max length, coerce and observe setting",
 "Container length and contents are unbounded and element properties are arbitrary.",
 [BC],[('Tuple/List/Set/Dictionary.validate, assert_valid','properties/base/containers.py')])
p('C08','Observable containers: mutations are validated, stored, notified, or do nothing',
 "Calling any mutating method on the observable container currently stored on an instance, or applying an in-place operator to the attribute that holds it (obj.attr op= x), results in one assignment of a copy with the mutation applied, so it is validated and notified exactly like an assignment, and the mutator's own return value is returned. If the mutation or its validation fails, the stored container and its contents are unchanged and still observed. Observable containers that are no longer stored behave as plain containers and notify nobody; operators, and in-place operators applied to an alias of the container, return a new container of the observable class and leave the stored one as it was.",
 ['histories','inputs'],"every mutator, every argument, every content, stored and detached containers, failing and succeeding validation",
 "29 mutators times contents times failure points times aliasing; tests call some of them once.",
 [BC],[('properties_mutator, properties_operator, observable_copy, add_properties_callbacks','properties/base/containers.py')],['_instance/_name on observable containers'])
p('C09','HasProperties.validate is complete: it succeeds only if everything is valid',
 "validate() returns True only if every property passes assert_valid (required ones set, values equal to their re-validation), every stored value survives its attribute validators unchanged, every class validator ran and did not return False or raise, and nested HasProperties values and container elements are themselves valid; otherwise it raises. All ValidationErrors found are gathered: the error raised carries every error tuple once, in order, and the instance's error hook is called with them; another exception type is re-raised only when there is no ValidationError. It does not change any property value and it terminates on self-referencing instances.",
 ['inputs','histories'],"every property set, every stored state, every outcome of every validator, any number of them",
 "Completeness is over all combinations of failing properties and validators.",
 [BB,B,BI,BC],[('HasProperties.validate, _validate_props','properties/base/base.py'),('Property.assert_valid','properties/basic.py'),('Instance.assert_valid','properties/base/instance.py'),('ValidationError','properties/utils.py')],
 ['_getting_validated','_validation_error_tuples'])
p('C10','Construction from keyword arguments sets everything or reports every failure',
 "HasProperties(**kwargs) sets every keyword through normal assignment in order, after defaults; it raises AttributeError for a keyword that is neither property nor attribute and for dynamic properties. If any assignments fail with ValidationError, all remaining keywords are still tried, one ValidationError is raised whose error tuples are all those raised, in order, and the error hook is called once with them; otherwise the first other error is re-raised. After construction, successful or not, error bookkeeping on the instance is cleared.",
 ['inputs','configurations'],"every set of keywords of any size, every combination of outcomes",
 "Combinations of failing and passing keywords of any number cannot be enumerated by tests.",
 [BB,U],[('HasProperties.__init__','properties/base/base.py'),('ValidationError','properties/utils.py')],['_validation_error_tuples','_non_validation_error','_getting_validated'])
p('C11','serialize writes exactly the stored properties, serialized by their own property',
 "serialize returns a new dictionary with one entry for each property whose current value is defined and whose serialized form is not None, produced by that property's serializer (or its to_json), plus '__class__' exactly when include_class is set; dynamic properties appear only with save_dynamic. include_class, save_dynamic and all other keyword arguments reach every nested serializer, containers and Unions serialize element-wise in order with their element properties. The instance is not modified, and a self-reference raises SelfReferenceError, after which the instance can be serialized again.",
 ['inputs','configurations'],"every property set and stored state, every serializer, every keyword argument",
 "All property sets, states and keyword combinations are in scope, tests check a few fixed dictionaries.",
 [BB,B,BC,BI,BU],[('HasProperties.serialize','properties/base/base.py'),('GettableProperty.serialize','properties/basic.py'),('Tuple/Dictionary.serialize','properties/base/containers.py'),('Instance.serialize','properties/base/instance.py'),('Union.serialize','properties/base/union.py')],['_getting_serialized'])
p('C12','deserialize picks the right class and honours trusted, strict and assert_valid',
 "deserialize raises ValueError unless given a dict; it builds an instance of the class it is called on, except that a '__class__' naming a class in the registry is used when trusted. With strict, a '__class__' that names another class or any unused key raises ValueError; without strict, unused keys are ignored. Every other entry is deserialized by its property (trusted/strict and extra keywords passed on) and set through normal validation; computed (dynamic) properties are never stored; assert_valid requires the result to be valid; the input dictionary is not modified.",
 ['inputs','configurations'],"every input dictionary, registry, trusted/strict/assert_valid combination",
 "Input dictionaries are unbounded and untrusted; tests try a few.",
 [BB,U,BI,BU,BC],[('HasProperties.deserialize, _deserialize_class','properties/base/base.py'),('filter_props','properties/utils.py'),('Instance/Union/Tuple/Dictionary.deserialize','properties/base')])
p('C13','Serialize/deserialize round trip and copy preserve values',
 "For every valid instance whose properties are serializable, deserialize(serialize(x)) and copy(x) are instances of the same class that are equal to x under properties.equal and share no mutable value with it (values of plain Property attributes, which are passed through, excepted, and Unions whose JSON form an earlier alternative also accepts). Per property, from_json(to_json(v)) (or deserialize(serialize(v))) is equal to v for every valid v, including infinities, nan, nested containers and dictionaries. Neither operation modifies x.",
 ['inputs','programs'],"every valid value of each built-in serializable property type, every class composed of them",
 "The claim is over all valid values of all types and their nesting.",
 [BB,B,BC,BI,BU,M],[('copy, serialize, deserialize','properties/base/base.py'),('to_json/from_json of every property','properties/basic.py, properties/math.py, properties/images.py')])
p('C14','Equality: same class and all property values equal, symmetric, no residue',
 "properties.equal(a, b) is True if a is b; for two HasProperties instances otherwise it is True exactly when their classes are the same and each property is unset in both or set in both and equal under that property's equal; with any other operand it is a == b. Container equality is equality of length and of elements pairwise (in order for lists and tuples, as a matching for sets, per key for dictionaries). It does not depend on the order of its operands (self-referencing instances excepted), leaves no trace on them, whatever the outcome or exception, and terminates on self-referencing instances.",
 ['inputs'],"every pair of instances and container values",
 "Quantifies over all pairs of structures of any size.",
 [BB,B,BC,BI,BU,M],[('equal','properties/base/base.py'),('Tuple/Set/Dictionary.equal','properties/base/containers.py'),('Property.equal family','properties/basic.py')],['_testing_equality'])
p('C15','Defaults and reset: every new instance starts from valid, fresh defaults',
 "A new instance holds for every property the class-level default if there is one, otherwise the property's default (a callable is called once per instance), validated, with no listener called; properties without default read as None. Resetting a property assigns that same default again through normal assignment, so with notifications, resetting without a name does so for all mutable properties, and unknown or immutable names raise AttributeError. Invalid or unknown defaults are rejected with AttributeError when the class is created, and with an error when given to a property.",
 ['configurations','histories'],"every combination of class defaults, property defaults and callables, every history before reset",
 "All combinations of default sources and prior histories.",
 [BB,B],[('PropertyMetaclass.__call__, _reset, _defaults check','properties/base/base.py'),('GettableProperty.default','properties/basic.py'),('Union.default','properties/base/union.py')],['_defaults'])
p('C16','Class construction: inherited properties and handlers follow the Python MRO',
 "The properties, observers and validators of a class are those defined on it and on its bases, where the definition that Python's MRO selects for each name wins and a name overridden by anything that is not a property is removed. Each property is bound to its attribute name, and invalid classes (Renamed to unknown names, observers of unknown or immutable names, bad documentation order) are rejected when defined. Constructing a class leaves its base classes' properties, handlers and docs as they were, registers it by name in the nearest class registry, and documents every public property exactly once.",
 ['programs','configurations'],"every class hierarchy the Python MRO admits",
 "Class hierarchies are unbounded programs; tests check a few diamonds.",
 [BB,H],[('PropertyMetaclass.__new__, build_from_bases','properties/base/base.py')],['_props','_prop_observers','_class_validators','_REGISTRY'])
p('C17','Union uses the first accepting property; Instance accepts or constructs',
 "Union.validate returns the result of the first of its props that accepts the value and raises ValidationError, a ValueError, only if all of them reject it; serialize uses that same first accepting prop, assert_valid succeeds only if one of the props asserts the value valid, and deserialize prefers the Instance prop named by '__class__', then the first prop whose deserialized value validates. Instance.validate returns an instance of instance_class unchanged and otherwise constructs one from the dict keywords or the single argument; the construction's errors are reported as ValueError with their messages. Invalid props or instance_class are rejected when the property is created.",
 ['inputs','configurations'],"any number of props with any accept/reject behaviour, every value",
 "The order of any number of alternatives and every outcome pattern.",
 [BU,BI],[('Union._try_prop_method, validate, assert_valid, serialize, deserialize','properties/base/union.py'),('Instance.validate, deserialize','properties/base/instance.py')])
p('C18','Dynamic and Renamed properties redirect without storing anything',
 "Reading a dynamic property returns None if its function returns None or undefined and otherwise the value validated by its prop, computed anew each time; setting or deleting it calls the registered setter with the validated value (or deleter) and raises AttributeError if there is none. Nothing is ever stored under a dynamic or renamed name. A Renamed property forwards get, set and delete to exactly the new name with the same value and result, warning FutureWarning exactly when warn is True.",
 ['inputs','configurations'],"every function, setter, deleter and value",
 "Holds for every user function and value.",
 [B],[('DynamicProperty.get_property','properties/basic.py'),('Renamed.get_property, display_warning','properties/basic.py')])
p('C19','Links propagate changes to the target, once, without loops, until unlinked',
 "With a directional_link, whenever the source property is set to a changed value (or set at all with change_only=False) the target is set to transform(source value); with update_now also at creation. Updates never re-enter the same link, an update that fails propagates its error and leaves the link usable, unlink stops and relink resumes propagation, and invalid endpoints are rejected with ValueError. link connects every ordered pair of its items once, so after a change of one all compatible items agree.",
 ['histories','inputs'],"every history of sets, unlinks and relinks, every transform, any number of linked items",
 "Histories of updates over networks of links cannot be enumerated by tests.",
 [L],[('directional_link, link','properties/link.py')],['_updating','_unlinked'])
p('C20','UIDs: consistent registry, no duplicates, flat round trip, pointers',
 "A HasUID instance can be loaded by its current uid, a uid in use by another instance is rejected and the instance keeps its old uid, and load never returns an instance whose uid is different. serialize gives a flat dictionary holding each reachable HasUID instance exactly once under its uid with '__root__' naming the root, also for cyclic structures; deserialize of such a well-formed flat dictionary rebuilds the same graph with identity and honours trusted, strict and assert_valid ('__root__' is reserved, listeners are enabled). A Pointer accepts an instance, a valid uid (kept as text unless load finds the instance) and rejects None and invalid uids.",
 ['histories','inputs'],"every graph of instances, every history of uid changes, loads and deserializations",
 "Graph shapes and histories are unbounded.",
 [XU],[('HasUID.serialize, deserialize, load, _ensure_unique, _update_instances','properties/extras/uid.py'),('Pointer.validate, deserialize','properties/extras/uid.py')],['HasUID._INSTANCES'])
p('C21','Singleton: one instance per name per registry, also through deserialize',
 "Calling a Singleton class with a name already in its registry returns that very instance and changes nothing; a new name creates and registers one instance under that name, and a construction that fails registers nothing. The identifying name never changes even if the name property does; serialize includes it and deserialize returns the registered instance if there is one and otherwise creates one with that identity and the serialized values. deserialize leaves its input dictionary unmodified and subclasses redefining the registry have an independent one.",
 ['histories','inputs'],"every history of creations, renames and deserializations",
 "Histories over a global registry.",
 [XS],[('SingletonMetaclass.__call__, Singleton.serialize, deserialize','properties/extras/singleton.py')],['Singleton._SINGLETONS'])
p('C22','Tasks run only on valid input and return only valid output',
 "Calling a task builds an Input from the keywords, validates it, passes it to run once, requires the result to be a valid BaseOutput instance and returns process_output of it (by default its serialization without class); run is not called for invalid input, and process_output is not called for invalid output. Errors from any step propagate. report_status accepts every valid TaskStatus (or keyword dict) and rejects progress outside 0..1.",
 ['inputs'],"every Input/Output class, keyword set and run result",
 "Every run implementation and input.",
 [XT],[('BaseTask.__call__, report_status, process_output','properties/extras/task.py')])
p('C23','Arrays and vectors: declared shape and dtype, scaled vectors, input untouched',
 "Array validate returns an array of the wrapper class whose dtype kind is one of the declared dtypes and whose shape matches one of the declared shapes, and raises ValueError otherwise. Vector properties return float vectors of their shape with named directions replaced by the documented components, scaled to length when one is set, with a zero vector rejected. The caller's list or array is never modified, equal treats nan as equal to nan at the same position, and JSON conversion with nan/inf as strings round-trips (real arrays whose nested list determines their shape, so not those with a zero-length leading dimension).",
 ['inputs','configurations'],"every shape specification and array shape, dtype set, direction string and length",
 "Shape specifications times array shapes times dtypes are unbounded.",
 [M],[('Array.validate/equal/to_json/deserialize','properties/math.py'),('BaseVector.validate, Vector*.validate','properties/math.py')])
p('C24','File and ImagePNG accept only usable open files in a valid mode',
 "File.validate returns only objects with read and seek that are not closed and whose mode, if known, is one of valid_modes (Python reports 'wb+' as 'rb+'); names are opened in exactly the configured mode only if there is one; anything else raises ValueError. Deleting a File property closes the stored file. ImagePNG returns a rewound in-memory copy of exactly the PNG bytes given, rejects content that does not start with the PNG signature, accepts its own open result unchanged, and to_json/from_json round-trips the bytes independent of the read position.",
 ['inputs','configurations'],"every file-like object, mode and valid_modes, every file content",
 "All modes, objects and contents.",
 [B,IM],[('File.validate, valid_modes, get_property','properties/basic.py'),('ImagePNG.validate, to_json, from_json','properties/images.py')])
p('C25','Recursion guards are released on every exit',
 "The guards that stop infinite recursion in validation, serialization, equality, link updates and stop_recursion_with are set while the operation runs on an object and always released when it ends, by return or by any exception. So after a failed validate, serialize, equal or construction the next call on the same object behaves as if the failed one had not happened. A recursive call on an object in progress gives the documented result: validate True, equal False, serialize SelfReferenceError, stop_recursion_with its backup (it compares objects with ==).",
 ['histories','fault_sequences'],"every point at which a user callback, validator or serializer may raise",
 "Every exception point in user code is a fault point; tests inject few.",
 [BB,U,L],[('validate/serialize/equal/__init__ try-finally','properties/base/base.py'),('stop_recursion_with','properties/utils.py')],['_getting_validated','_getting_serialized','_testing_equality','_updating','held_objects'])
p('C26','Property arguments are checked, and filter_props splits dictionaries exactly',
 "Creating a property applies every keyword as that attribute and raises AttributeError for private or unknown keywords and TypeError for values of the wrong type (lengths, flags, choices, modes, shapes) and bounds out of order, so that no property is created whose min exceeds max, min_length exceeds max_length or whose default it would itself reject. (The flags of URL and Pointer are coerced to booleans.) tag updates only that property's meta, and handlers and observers reject non-string names and unknown modes. filter_props returns two dictionaries that partition the input: the first has exactly the keys that are properties (only settable or renamed ones if immutable are excluded), each with its value, and the input is unchanged.",
 ['inputs','configurations'],"every keyword set, every order of setting bounds, every input dictionary",
 "All configurations and orders of setting.",
 [B,BC,U,H,M],[('GettableProperty.__init__, setters of every property','properties/basic.py, properties/base, properties/math.py'),('filter_props','properties/utils.py')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: 
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
