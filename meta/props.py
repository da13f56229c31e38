S = 'ifc_rs/src/'
NOTES = ('No hooks: the checks read the type-checked program (THIR) of /repo through a rustc driver built in /verif/build '
         'and never run it.')
ENGINE = ('All abstract paths of the code are enumerated, no bound on values; list lengths are split (0,1,2; thorough '
          '0..3). Trusted: rustc front end, the models of std/winnow/strum/chrono/uuid in vlib/natives.py and '
          'vlib/grammar.py. Obligations the interpreter cannot decide are reported as undecided, and floors on what was '
          'analysed fail closed.')

PROPS = [
 dict(id='P01', title='Every value read back from its own text is unchanged',
  statement='Writing any header, entity, attribute value, measure or enumeration value that the library can represent '
   '(texts without apostrophe or backslash, finite numbers) and reading that text back, whatever admissible text follows it, succeeds, '
   'consumes exactly that text and yields the same value in every attribute.',
  over=['inputs'], q='every value of every readable type: all enumeration values, present/absent optional attributes, '
   'references and in-place values, all list lengths, arbitrary texts and numbers, every following delimiter',
  why='The tests parse one or two sample lines per entity and compare the printed text; they never visit most enumeration '
   'values, absent/derived attributes, nested combinations or empty lists.',
  files=[S+'parser/', S+'objects/', S+'geometry/', S+'materials/', S+'relations/', S+'units/', S+'values/', S+'properties/', S+'meta/'],
  mech=[('text output', 'impl Display of every type'), ('readers', 'impl IFCParse of every type')],
  technique='path-sensitive abstract interpretation of printer and parser code (THIR), symbolic text matched against the parser grammar',
  note=ENGINE),
 dict(id='P02', title='A data section reads back with the same ids, kinds and unknown entries',
  statement='Reading a written data section gives back every entry under its own number as the same kind of entity, whatever '
   'neighbours it has. Entries of kinds the library does not know, including kinds whose names extend or nearly match a known name, are '
   'kept and written again verbatim.',
  over=['inputs'], q='every entity kind alone and among others, every unknown kind name near a known one, arbitrary attribute values',
  why='The dispatch over some 75 entity readers is ordered and prefix sensitive; tests cover the kinds that occur in a few sample files.',
  files=[S+'meta/datamap/', S+'parser/', S+'lib.rs'],
  mech=[('dispatch', 'meta/datamap/deserialize.rs'), ('fallback entry', 'objects/dummy.rs'), ('file', 'lib.rs')],
  technique='path-sensitive abstract interpretation of section printer and ordered-choice dispatch (THIR)',
  note=ENGINE),
 dict(id='P04', title='References must name an existing entry of an admissible kind',
  statement='Verification of a model accepts an entry only if each of its references, single, optional or in a list, names an '
   'entry that exists and is of a kind the attribute admits in the schema (or an entry kept verbatim because its kind is unknown). It accepts all of those.',
  over=['inputs'], q='every reference attribute of every entity kind x every kind of target and a missing target',
  why='There are about 150 reference attributes and 76 target kinds; the tests verify whole sample files and a handful of wrong references.',
  files=['ifc_rs_verify_derive/src/', S+'traits/ifc_type.rs', S+'objects/', S+'relations/', S+'geometry/'],
  mech=[('verification code', 'derive(IfcVerify) expansions'), ('admissible kinds', 'ifc_types attributes')],
  technique='abstract interpretation of the derived verification code per reference slot, accept set against a schema table',
  note=ENGINE + ' Lists are represented by their first element alone and their second of two.'),
 dict(id='P05', title='Loading accepts exactly readable files with sound references',
  statement='Loading a written model, from text or from a file, succeeds exactly when only white space follows it and the '
   'references of every entry verify against the complete model (also entries that refer to later ones). It then yields that model; '
   'otherwise it reports an error. An unreadable file is an error and only the given file is read.',
  over=['inputs'], q='models with any entries in any order and any verification verdicts, any text after the model, any path',
  why='The tests load a few sound files; a refusal, a skipped entry or an order dependence needs particular models.',
  files=[S+'lib.rs', S+'meta/', S+'traits/ifc_type.rs'],
  mech=[('loading', 'lib.rs: FromStr for IFC, IFC::from_file'), ('verification', 'traits/ifc_type.rs: IfcVerify')],
  technique='abstract interpretation of the loading code (THIR) with the verdict per entry as a split unknown',
  note=ENGINE),
 dict(id='P06', title='Loading never panics on any text',
  statement='Reading any text with the reader of any type, loading a model from any text or any file contents (however malformed, truncated or '
   'out of range), and verifying the references of any loaded entry (whatever kinds of entry its references name, or none) end with a '
   'value or an error, never with a panic; the same holds for writing any entry. Exhausting memory or the stack is not covered.',
  over=['inputs'], q='every text, every reader, every entry kind with any references, every value that is written',
  why='The tests feed well-formed samples; the panicking input is an unforeseen one (out-of-range number, foreign letter, missing entry, empty list).',
  files=[S+'parser/', S+'meta/', S+'id/', S+'lib.rs', S+'traits/', 'ifc_rs_verify_derive/src/'],
  mech=[('readers', 'IFCParse impls and p_* combinators'), ('loading', 'lib.rs: FromStr for IFC, IFC::from_file'), ('verification', 'derive(IfcVerify)')],
  technique='abstract interpretation of every reader, of loading, verifying and writing on an unknown input text (THIR): no path reaches a panic',
  note=ENGINE),
 dict(id='P07', title='What the typed interface builds passes verification',
  statement='An entity made by a public constructor, or changed by a public setter while its other references are sound, passes '
   'reference verification in the model it was made for (so the model can be loaded again), whenever each reference given is '
   'an entity in place or the typed number of an existing entry of that kind; every kind the signature admits is admissible (where it admits any entry, every '
   'kind the schema allows). Numbers passed without a type are the caller\'s responsibility.',
  over=['inputs'], q='every constructor and setter that takes references, every type argument, in place or by number, any other arguments and model',
  why='The admissible kinds are declared twice, as trait bounds and as verification lists; tests try a few combinations.',
  files=['ifc_rs_verify_derive/src/', S+'traits/', S+'objects/', S+'geometry/', S+'materials/', S+'relations/'],
  mech=[('typed interface', 'constructors and setters with impl Into<IdOr<T>>'), ('verification', 'derive(IfcVerify), ifc_types')],
  technique='abstract interpretation of each constructor/setter composed with the derived verification (THIR), over all type arguments of its trait bounds',
  note=ENGINE),
 dict(id='P08', title='Views of an entry show its own data with references resolved',
  statement='The mapped view of an entry (axis placements, transformation operators, profiles, extruded solids, mapped items), the points '
   'of a polyline or outline, the items and the context of a representation, the representations of a product, and the view of an entry '
   'as its base kinds show exactly the data of that entry and of the entries it refers to, resolved in place or by number: each value in its place, '
   'lists complete and in order, absent attributes as absent. This holds for loaded models whose references name kinds the library knows.',
  over=['inputs'], q='every view, references in place and by number, absent and present optional attributes, every admissible kind behind a reference, '
   'lists of 0 to 3 items (bounded) with repeated items, any other entries before, between and after',
  why='No test looks at most of the views, those that do use one model whose optional attributes are mostly absent.',
  files=[S+'geometry/', S+'relations/', S+'objects/', S+'traits/'],
  mech=[('mapped views', 'impl IfcMappedType (mappings)'), ('list views', 'PolyLine::points, ShapeRepresentation::items, Product::shapes'),
        ('base views', 'Deref, to_structure, structure_type')],
  technique='abstract interpretation of every view (THIR) on symbolic models; provenance of each part of the result',
  note=ENGINE),
 dict(id='P09', title='The entry store never mixes up numbers, entries and kinds',
  statement='A newly inserted entry gets a number not in use and the returned typed number leads to exactly that entry. '
   'Every operation of the store changes only the entry it names. Queries by kind return each entry of that kind once, under its own number, and '
   'nothing else. An in-place value given to a constructor becomes a new entry; a number is kept.',
  over=['inputs', 'histories'], q='stores with arbitrary numbers (gaps, any order of insertion and removal) and entries of arbitrary kinds',
  why='Tests fill a fresh store with consecutive numbers; collisions need gaps, removals or explicit numbers.',
  files=[S+'meta/datamap/mod.rs', S+'id/'],
  mech=[('store', 'meta/datamap/mod.rs: DataMap'), ('reference or value', 'id/id_or.rs: IdOr::or_insert')],
  technique='abstract interpretation of every store operation over symbolic ordered stores (order domain with offsets)',
  note=ENGINE),
 dict(id='P10', title='Each builder call writes its entry and its relations exactly once',
  statement='Every creation method of the project, site, building, storey, wall and slab builders writes its new entry under an unused '
   'number, with the name, owner history, predefined type, layer, constituent and material values given, placed relative to the '
   'element it belongs to at the position given (a storey at its elevation, a window at the origin of its opening). When the builders '
   'are dropped, each relation this implies (aggregation, containment in the storey, definition by type, material association, voids, '
   'fills, property sets) is in the model exactly once and names both sides; relations of earlier calls are kept, no other relation '
   'appears, entries from before the call are unchanged and everything written passes verification. A new project carries the owner, '
   'application, SI units, 3D context and model view sub-context.',
  over=['inputs', 'histories'], q='every creation method, all argument values, builders opened on models with arbitrary entries and '
   'numbers, builders that already hold 0, 1 or 2 further entries of the kind (bounded), the same or another type or material reused',
  why='The builder tests write one small model each and only check that it prints; nothing looks at a lost, doubled or swapped relation.',
  files=[S+'ifc_builder/', S+'relations/', S+'geometry/local_placement/'],
  mech=[('builders', 'ifc_builder/*.rs: Ifc*Builder'), ('relations on drop', 'impl Drop of the builders')],
  technique='abstract interpretation of each builder method and the Drop code after it (THIR); the relations found are compared with '
   'those the call implies',
  note=ENGINE),
 dict(id='P11', title='Builders write the geometry they are asked for, moves included',
  statement='The shape a builder writes for an element is the solid its parameters describe: the profile is the outline given or the '
   'centred rectangle of the given length and thickness (for layered walls, the sum of the layer thicknesses), extruded in the given '
   'direction (upwards when none is given) by the given height or thickness; walls also carry their axis line; openings and windows use '
   'the position given relative to what they belong to. Moving a product replaces each of its representations by exactly one mapped '
   'representation with the same context and identifiers whose mapping is the rotation and translation asked for, and '
   'changes no other product; setters of the transformation parameters change only their own part. Arithmetic is over the reals, float '
   'rounding aside.',
  over=['inputs'], q='every shape-making builder method and every move, all numeric arguments symbolic, outlines of two points (three in the thorough tier), '
   'zero to two layers and 0 or 1 other products (bounded)',
  why='The builder tests only check that a model is written; a swapped length, halved offset or wrong axis still prints.',
  files=[S+'ifc_builder/', S+'geometry/'],
  mech=[('shapes', 'ifc_builder/*.rs: *_shape'), ('moves', 'ifc_builder/transforms.rs, storey.rs: transform')],
  technique='abstract interpretation of each builder method (THIR); coordinates as polynomials over the arguments, compared exactly '
   'with a table of the intended shapes',
  note=ENGINE),
 dict(id='P12', title='Constructors and setters store what they are given',
  statement='Every public constructor and setter of an entity puts each argument into the attribute it is for (in that place of the '
   'coordinate, scale or axis list) and leaves all others absent, empty or at their fixed constant (constructor) or as they were '
   '(setter); adding to a list keeps the items before it and adds one at its end. A reference given is stored as it is; an entity '
   'given in place becomes exactly one new entry the attribute refers to; nothing else in the model changes.',
  over=['inputs'], q='all argument values, every type argument the signature admits, reference, plain number or in-place value, list '
   'attributes absent or of any length (not derived), texts without escape codes',
  why='There are some 75 constructors and 200 setters; the tests use a part of them and compare the text of a few entities.',
  files=[S+'objects/', S+'geometry/', S+'materials/', S+'relations/', S+'units/', S+'values/', S+'properties/'],
  mech=[('constructors', 'T::new, From impls'), ('setters', 'methods of T and the *Builder traits')],
  technique='abstract interpretation of every constructor and setter (THIR) with symbolic arguments; provenance of each attribute of the result',
  note=ENGINE + ' Which parameter is for which attribute is a table by position.'),
 dict(id='P13', title='References, global identifiers and time stamps identify exactly what the standard says',
  statement='References of the same number are equal, hash alike and are ordered by number, those of different numbers are not equal, typed or not; copying, '
   'converting, writing (#number) and reading keep the number. A globally unique identifier is written as the 22 characters of the IFC encoding of its 128 bits '
   '(2 bits in the first character, 6 in each other, table 0-9A-Za-z_$) and read back from exactly such texts, for all identifiers; new ones are random UUIDs. '
   'A time stamp is written as whole seconds since 1970 and read as that date.',
  over=['inputs'], q='all pairs of numbers, all 2^128 identifiers, all texts of 22 characters of the table (the first one of 0..3), all dates',
  why='Tests show one identifier and a few numbers; a lost or swapped bit, or a comparison by something else than the number shows on other values.',
  files=[S+'id/', S+'parser/timestamp.rs'], mech=[('references', 'id/typed.rs, id/plain.rs'), ('GUID', 'id/ifc_uuid.rs'), ('time stamps', 'parser/timestamp.rs')],
  technique='abstract interpretation (THIR): order domain for numbers, bit-provenance domain for identifiers',
  note='Interpreter of the type-checked program; uuid, chrono and std comparison and hashing of machine numbers are trusted.'),
 dict(id='P15', title='A written model is an exchange structure that any ISO 10303-21 reader accepts, with its data in place',
  statement='The text of every model has, in order, the ISO-10303-21 frame, FILE_DESCRIPTION, FILE_NAME and FILE_SCHEMA with every parameter taken from '
   'the header attribute of that name (all list items, in order, the time stamp in ISO form), the data section with every entry exactly once as #number=record; in '
   'the order of the numbers, and the end tokens. Every record and every value written in one follows the parameter grammar of the standard for all attribute values: '
   'brackets and quotes close, lists are separated by single commas, references are #number, free text only inside quotes, reals carry a point. '
   'German letters in a text are written as \\X2\\....\\X0\\ with their code, and other printable ASCII as it is.',
  over=['inputs'], q='all headers, all models, every entity kind and value type with all its optional parts',
  why='Tests read back what the crate itself wrote: reader and writer agree on a deviation that other tools reject, and tests show few attribute values.',
  files=[S+'lib.rs', S+'meta/', S+'parser/', S+'objects/', S+'geometry/', S+'materials/', S+'relations/', S+'units/', S+'values/', S+'properties/'],
  mech=[('frame', 'impl Display for IFC, Header, Footer'), ('records', 'impl Display of every entity and value')],
  technique='abstract interpretation of the printing code (THIR): symbolic text with provenance, checked against the grammar of ISO 10303-21 and a table of the frame',
  note=ENGINE),
 dict(id='P16', title='Conversions, optional values and defaults carry exactly the value given',
  statement='Converting a truth value, whole or real number, text, vector, reference, inline value or option into a value of the crate gives the one that holds exactly it '
   '(a direction is the unit vector along the given one), and a real value converts back to the same f64. An optional parameter is exactly one of omitted, inherited, given: '
   'is_omitted, is_inherited, is_custom, custom and custom_mut agree with how it was made, a change through custom_mut stays, and it is written as $, * or as the value itself. '
   'The default transformation moves and turns nothing and each of its setters sets its own part (a zero axis is ignored); default sets, lists and models are the empty ones. '
   'Deref and DerefMut of an entity show the same part of it, an extractor the model it was made from.',
  over=['inputs'], q='all values of the source types, all three states, non-zero vectors for directions',
  why='Tests use a few round numbers and the default path; a conversion that loses digits, a sign or the state shows on other values.',
  files=[S+'parser/optional.rs', S+'parser/real.rs', S+'parser/integer.rs', S+'id/id_or.rs', S+'values/', S+'geometry/point/mod.rs', S+'geometry/direction/mod.rs', S+'ifc_builder/transforms.rs'],
  mech=[('optional values', 'parser/optional.rs'), ('conversions', 'impl From in parser/, id/, values/, geometry/'), ('defaults', 'ifc_builder/transforms.rs, lib.rs')],
  technique='abstract interpretation (THIR) of every From, Default, Deref, DerefMut body on symbolic values',
  note='Interpreter of the type-checked program; generic conversions are analysed at representative types. BoolPrimitive may be written .T. or .TRUE. (existing tests fix the latter).'),
 dict(id='P17', title='Extractor queries return exactly the related entries, in order',
  statement='On a loaded model the extractor\'s queries (projects, entries aggregated by, elements contained in, openings that void, materials '
   'associated with, constituents of a material set, the type that defines an element) return exactly the entries the relations of the model '
   'name for the entry asked about, of the kind asked for, each as often as it is related, in order of the relation\'s number and then of '
   'its list; relations of other kinds or about other entries have no influence. The type query is for elements listed by exactly one such relation.',
  over=['inputs'], q='every query, models with two relations and decoys of every relation kind, lists of 0 to 3 entries (bounded), '
   'relations numbered before, among or after the entries, any numbers',
  why='The extractor has two tests on one file; a query that stops at the first relation, or follows a relation backwards, passes them.',
  files=[S+'ifc_extractor/', S+'meta/datamap/mod.rs'],
  mech=[('queries', 'ifc_extractor/mod.rs: IfcExtractor'), ('relations', 'relations/*.rs')],
  technique='abstract interpretation of every query (THIR) on symbolic models with ordered unknown numbers; result lists compared with the relations',
  note=ENGINE),
 dict(id='P18', title='White space and comments between the parts of a file do not change what is read',
  statement='Any mixture of blanks, tabs, line breaks and /* */ comments, with whatever text inside, may stand around every comma between the parameters of a record, '
   'the arguments of a value and the items of a list, before #, on both sides of = and after ; of every entry, after every ; of the file, and anywhere between '
   'the tokens of the header (not inside an empty list): the same model is read as without it.',
  over=['inputs'], q='every entity kind and value type, all attribute values, all places named',
  why='Files of other tools are laid out differently from the samples; a reader that trips over a line break in one attribute of one kind loses the whole file.',
  files=[S+'parser/', S+'meta/', S+'objects/', S+'geometry/', S+'materials/', S+'relations/', S+'units/', S+'values/', S+'properties/'],
  mech=[('layout', 'p_space_or_comment_surrounded, Comma'), ('sections', 'meta/')],
  technique='abstract interpretation of printing and parsing code (THIR): symbolic text with white space holes matched by the combinator grammar',
  note=ENGINE),
 dict(id='P19', title='Reading, writing, verifying and querying depend on nothing but their arguments',
  statement='Reading any value or model from text, writing it, verifying it, comparing, viewing and querying it and storing entries are functions '
   'of their arguments alone: no clock, randomness, environment, file, stream, network, thread, state kept between calls, state that can change behind a shared '
   'reference, or unspecified collection order has any influence, and nothing outside the arguments is changed. The exceptions are those the interface names: IFC::from_file '
   'reads the file, constructors draw identifiers, default values and IfcTimestamp::now read the clock, and the builders may do both.',
  over=['inputs', 'histories'], q='every function of the crate, whatever was called before it and wherever it runs',
  why='A test runs once, in one process, on one day; dependence on time, earlier calls or hash order shows only across runs.',
  files=[S], mech=[('entry points', 'all public functions and trait impls'), ('effects', 'calls into std, chrono, uuid; statics; fields')],
  technique='effect analysis over the resolved call graph of the type-checked program: effects of external items and statics propagated to every entry point',
  note='Whole crate, every call site. Trait calls with unknown receiver go to all implementations their bounds admit. Trusted: rustc front end, '
       'and that items of std, winnow, strum, itertools, bevy_math, anyhow that are not in the effect table are pure.'),
 dict(id='P23', title='Written entities follow the IFC schema',
  statement='Every entity and typed value is written with the keyword of its kind in the IFC4 schema and with the attributes of '
   'the schema in number and order, each attribute taken from the field of that name and in the notation of its schema '
   'type (reference, list, text, integer, real with decimal point, logical, token of the enumeration), $ where it may be '
   'absent and * where it is derived. Every enumeration value is written as the token of its name, and no schema token '
   'is missing.',
  over=['inputs'], q='every entity kind, every attribute, present or absent, every enumeration value',
  why='Round trip tests pass when writer and reader agree on a wrong layout; tests compare a sample line for some kinds.',
  files=[S+'objects/', S+'geometry/', S+'materials/', S+'relations/', S+'units/', S+'values/', S+'properties/'],
  mech=[('record layout', 'impl Display of every entity'), ('tokens', 'enumerations with strum(to_string)')],
  technique='abstract interpretation of the printing code (THIR): record layout with provenance of every attribute, against a schema table',
  note=ENGINE),
 dict(id='P30', title='Numbers keep their exact value in text',
  statement='Writing a finite real and reading the text back gives the bit-identical number, and reading a decimal text gives the nearest number.',
  over=['inputs'], q='all finite 64-bit floats and decimal texts', why='2^64 values.', files=[S+'parser/real.rs'],
  mech=[('real numbers', 'parser/real.rs')],
  na='The conversion is done by std and winnow on bits of the number; a static rule can only trust them (the rest of the round trip, with the number '
     'as an opaque hole of text, is P01).'),
 dict(id='P31', title='Geometry stays within a bound of the exact result under rounding',
  statement='The coordinates builders write differ from the real-arithmetic result by at most a few units in the last place.',
  over=['inputs'], q='all finite arguments', why='Rounding depends on the values.', files=[S+'ifc_builder/'], mech=[('shapes', 'ifc_builder/*.rs')],
  na='A bound needs numeric error analysis over the ranges of unconstrained arguments; the interpreter works over the reals (P11).'),
 dict(id='P32', title='Loading takes bounded stack and near linear time',
  statement='Loading a text of n bytes needs stack bounded by a constant and time proportional to n log n.',
  over=['inputs'], q='all texts, hostile ones included', why='Resource use at sizes tests do not reach.', files=[S+'parser/', S+'meta/'],
  mech=[('readers', 'p_* combinators')],
  na='Running time and stack are runtime quantities of winnow combinators (backtracking over some 75 alternatives); no sound static bound is in reach.'),
 dict(id='P33', title='Generated identifiers are unique',
  statement='No two entities made by the library get the same globally unique identifier.',
  over=['inputs', 'histories'], q='all runs', why='Collisions are a matter of the random source.', files=[S+'id/', S+'objects/shared/'],
  mech=[('identifiers', 'IfcGloballyUniqueId')],
  na='Uniqueness rests on the random generator of the uuid crate; source analysis can show that it is asked (not that its values differ).'),
]
