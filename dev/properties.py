"""Writes properties.jsonl and MANIFEST.json from one table (development only)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCHEMA = ['pyasn1_modules/*.py']


def P(id, title, statement, over, text, why, mech, files=None, observe=None, state=None, technique=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech,
                files=files or SCHEMA, observe=observe, state=state, technique=technique, note=note)


SUITE = ('The 282 tests decode a handful of recorded messages per module: components, alternatives and limits those '
         'messages do not use are never reached.')

REF = ('Decides the property exactly for the reference in spec/ (a transcription of the ASN.1 of the RFCs); trusts '
       'that reference and the summaries of pyasn1 in asn1lint/model.py. What the interpreter cannot resolve is '
       'counted, not judged.')

TABLE = [
    P('C01', 'Every message type has the structure its RFC defines',
      'Every ASN.1 type a module offers has the base type, the components in their order with their names and types, '
      'their OPTIONAL or mandatory status, and the element type that the ASN.1 of its RFC defines. So what a '
      'conforming peer sends can be decoded into those components, and what is built from them is encoded as the '
      'peer expects.',
      ['inputs', 'programs'], 'all values of all types of the 130 modules, whichever way a program reaches the type',
      SUITE,
      [('componentType declarations', 'pyasn1_modules/rfc5280.py: TBSCertificate, and its like in every module'),
       ('forward declarations completed later', 'pyasn1_modules/rfc5652.py: X.componentType = ...'),
       ('cross-module reuse of types', 'pyasn1_modules/rfc3852.py')],
      observe=['decoder.decode(der, asn1Spec=module.Type())', 'encoder.encode(value)'],
      technique='abstract interpretation of the module bodies; structural comparison with a reference library',
      note=REF),
    P('C02', 'Every tag is the one the RFC prescribes',
      'Every type, component, element and registered type carries exactly the tags its RFC prescribes: class, number, '
      'implicit or explicit, primitive or constructed. So no conforming message is rejected, or decoded as another '
      'component, because of its tags.',
      ['inputs', 'programs'], 'all tags of all types, components and alternatives, including those derived by '
      'subtype(implicitTag=...), subtype(explicitTag=...) and CHOICE',
      SUITE + ' A wrong tag on an optional component stays unseen until a message carries it.',
      [('tagging by subtype()', 'pyasn1_modules/rfc2459.py: GeneralName'),
       ('class level tag sets', 'pyasn1_modules/rfc2251.py: tagSet = ...tagImplicitly(...)')],
      technique='abstract interpretation; resolved tag sets compared with a reference library', note=REF),
    P('C03', 'Every constraint admits exactly the values the RFC admits',
      'A type with a value range, size, permitted alphabet or other constraint accepts exactly the values its RFC '
      'allows: none that the RFC admits is refused and none that it forbids gets through.',
      ['inputs'], 'all values of all constrained types and components, including both ends of every bound',
      SUITE + ' The limits themselves (one below, at, one above) are not tested.',
      [('subtypeSpec and sizeSpec declarations', 'pyasn1_modules/rfc5280.py: ub_*, X520name'),
       ('inherited and intersected constraints', 'pyasn1_modules/rfc3280.py, rfc5280.py: DirectoryString')],
      technique='abstract interpretation; constraints normalised to accepted sets and compared', note=REF),
    P('C04', 'Every named number and named bit has the value of the RFC',
      'Every named number of an INTEGER or ENUMERATED and every named bit of a BIT STRING stands for the value the '
      'RFC gives it, and no name of the RFC is missing or added.',
      ['inputs'], 'all names of all types with named values', SUITE,
      [('namedValues declarations', 'pyasn1_modules/rfc5280.py: KeyUsage, ReasonFlags, CRLReason'),
       ('LDAP result codes', 'pyasn1_modules/rfc2251.py: LDAPResult.resultCode')],
      technique='abstract interpretation; resolved named values compared with a reference library', note=REF),
    P('C05', 'Every DEFAULT component has the default of the RFC',
      'A component is DEFAULT exactly where its RFC says so, and its default is the value of the RFC: decoding a '
      'message that leaves the component out yields that value, and encoding that value in DER leaves it out. A '
      'mandatory or optional component has no value until one is set or decoded.',
      ['inputs'], 'all DEFAULT components, whatever else the message holds', SUITE,
      [('DefaultedNamedType', 'pyasn1_modules/rfc5280.py: Extension.critical'),
       ('structured defaults', 'pyasn1_modules/rfc4055.py: RSASSA_PSS_params')],
      technique='abstract interpretation; resolved default values compared with a reference library', note=REF),
    P('C06', 'Every object identifier and constant has the value of the RFC',
      'Every OBJECT IDENTIFIER and every numeric or string constant a module offers has the value its RFC assigns to '
      'that name, however the module computes it.',
      ['programs'], 'all OID and constant names of all modules', 
      'Tests compare a few dozen OIDs with those in recorded messages; most of the 1700 names occur in no test.',
      [('OID arithmetic', 'pyasn1_modules/rfc5280.py: id_pkix + (...), _buildOid(...), _OID(...)'),
       ('upper bounds', 'pyasn1_modules/rfc5280.py: ub_name and others')],
      technique='abstract interpretation; constant evaluation compared with a reference library', note=REF),
    P('C07', 'Importing a module registers the right type under each OID',
      'Importing a module registers, in the registries its RFC extends, exactly the types the RFC assigns to each '
      'object identifier, and never removes an entry. A program that imports it can decode every extension, '
      'attribute, algorithm parameter, content type and other-name the RFC defines as an open type.',
      ['programs', 'inputs'], 'all keys of all registries, for every import of every module',
      SUITE + ' Most registry entries are never looked up by a test.',
      [('registry updates', 'pyasn1_modules/rfc*.py: certificateExtensionsMap.update(...)'),
       ('registries', 'pyasn1_modules/rfc5280.py: certificateExtensionsMap, algorithmIdentifierMap; rfc5652.py: '
        'cmsContentTypesMap, cmsAttributesMap')],
      state=[('registries', 'OID -> type, shared by all modules', 'pyasn1_modules/rfc5280.py, rfc5652.py')],
      technique='abstract interpretation of import effects; registry contents compared with a reference library',
      note=REF),
    P('C08', 'Every open type is governed by the right field and registry',
      'Where the RFC leaves the type of a field to an identifier in the same message, the field is decoded according '
      'to that identifier, looked up in the registry of its kind. The identifier is a component that exists and comes '
      'before the field, and the field can hold what the registry yields.',
      ['inputs', 'programs'], 'all open fields of all types, whatever identifier a message carries',
      'decodeOpenTypes is tried on a few messages; an open field with a wrong governor or registry fails only when '
      'such a message is decoded.',
      [('OpenType declarations', 'pyasn1_modules/rfc5280.py: AlgorithmIdentifier, Attribute, Extension; rfc5652.py: '
        'ContentInfo')],
      technique='abstract interpretation; open-type wiring checked structurally and against a reference library',
      note=REF),
    P('C09', 'Registry contents do not depend on the order of imports',
      'Whatever modules a program imports, in whatever order, every identifier is decoded as one and the same type: '
      'two modules never register different types for it, none takes away or replaces what another one registered, '
      'and none registers depending on what is there already.',
      ['histories', 'programs'], 'all subsets and orders of imports of the 130 modules',
      'The suite imports the modules in one order; the number of orders is astronomical.',
      [('registry updates at import', 'pyasn1_modules/rfc*.py: ...Map.update(...)')],
      state=[('registries', 'OID -> type, shared by all modules', 'pyasn1_modules/rfc5280.py, rfc5652.py')],
      technique='effect analysis of all registry writes, removals and reads (commutativity of import effects)',
      note='Sound for the writes the interpreter resolves (all of them today): pairwise agreement of writes and the '
           'absence of removals and foreign reads imply independence of the order. Known conflicts are listed.'),
    P('C10', 'Modules of successive RFCs agree on what they share',
      'Where several modules declare the same type or identifier, because an RFC was superseded or repeats a '
      'definition, the declarations agree: a message built with one is decoded by the others into the same '
      'components, and both accept the same values.',
      ['programs', 'inputs'], 'all 423 families of shared declarations, all their values',
      'Each test file exercises one module on its own; none compares two modules.',
      [('parallel definitions', 'pyasn1_modules/rfc2459.py, rfc3280.py, rfc5280.py; rfc3852.py, rfc5652.py; '
        'rfc2511.py, rfc4211.py; rfc2560.py, rfc6960.py')],
      technique='abstract interpretation; pairwise structural comparison of sibling declarations',
      note='Needs no reference: siblings are compared with each other. The families are a table confirmed by hand '
           '(tables/generations.txt).'),
    P('C11', 'Every type can be decoded without ambiguity',
      'In every type, the tags alone tell which alternative of a CHOICE, which member of a SET and which of several '
      'OPTIONAL or DEFAULT components of a SEQUENCE comes next. So what is encoded from one component is never '
      'decoded as another.',
      ['inputs'], 'all pairs of components that can stand at the same place, in all types and registered types',
      SUITE, [('tagged components', 'pyasn1_modules/rfc4211.py: CertTemplate; rfc5652.py: SignedData')],
      technique='first-set analysis over the resolved type graph',
      note='Needs no reference. Sound and complete for tag-based decoding of the resolved types; ANY is taken to '
           'start with any tag only where the RFC has no way around it.'),
    P('C12', 'No component uses a type before it is complete',
      'Whatever a program reaches through a component, element or registry is the complete type: its components, '
      'tags and constraints are the same as those of the type under its public name. A recursive or '
      'forward-declared type is never captured while unfinished.',
      ['programs'], 'all paths through the type graph, from every name of every module',
      'An incomplete prototype deep in a structure is only noticed by a message that reaches it.',
      [('order of declarations', 'pyasn1_modules/rfc5652.py, rfc4211.py: X.componentType assigned after class X'),
       ('recursive types', 'pyasn1_modules/rfc2251.py: Filter; rfc4210.py: NestedMessageContent')],
      technique='typestate analysis of prototypes (instance created before its class was completed)',
      note='Sound for the instances the interpreter creates, which are all instances of the module bodies.'),
    P('C13', 'Each module imports alone, in any order, without side effects',
      'Importing a module never fails, on its own or after any others, on every supported Python; it changes '
      'nothing but its own names and the OID registries, neither objects and classes of other modules nor those of '
      'pyasn1 or the interpreter, and does no input or output.',
      ['histories', 'programs', 'configurations'], 'all orders and subsets of imports, Python 2.7 and 3',
      'The suite imports all modules together in one process on one Python.',
      [('imports and top-level statements', 'pyasn1_modules/*.py')],
      technique='effect analysis of module bodies; each module elaborated alone and in two orders',
      note='Each module is elaborated alone (in the thorough tier for Python 2.7 too), and all together in two opposite '
           'orders and for Python 2.7, 3.5 and 3.12; an effect on anything foreign is reported wherever it occurs.'),
    P('C14', 'PEM reading selects the right block and consumes no more',
      'Reading a PEM block from a text stream yields the first block that starts with one of the given start '
      'markers, the position of that marker pair among those given, and leaves the stream just after the end marker '
      'of that same pair; lines inside an open block that look like other markers do not end or restart it. Without '
      'any block the position is -1, and a block that is never ended gives no data.',
      ['inputs', 'histories'], 'all streams of lines (payload, blank, any start or end marker), any number of calls, '
      'any number of distinct marker pairs',
      'The tests use the reader on nothing but well-formed single blocks held in strings.',
      [('reader automaton', 'pyasn1_modules/pem.py: readPemBlocksFromFile'),
       ('single marker reader', 'pyasn1_modules/pem.py: readPemFromFile')],
      files=['pyasn1_modules/pem.py'],
      technique='path-wise abstract interpretation to a fixpoint against a reference automaton',
      note='All abstract states are enumerated to closure for 0, 1 and 2 marker pairs (3 in the thorough tier), for '
           'Python 2.7 and 3. Line contents are abstracted to payload, blank and markers. Assumes distinct marker '
           'texts.'),
    P('C15', 'PEM payload is decoded completely and unchanged',
      'What PEM and base64 reading returns is the base64 decoding of exactly the lines between the markers, all of '
      'them, in order, without the markers, however it is cut into lines and whatever whitespace surrounds them; the '
      'plain base64 readers decode '
      'all of the text. The result is bytes on Python 3 and empty if there is no complete block.',
      ['inputs', 'configurations'], 'all payloads of any number of lines, on Python 2.7 and 3',
      'The tests decode recorded blobs with full lines; blank lines, surrounding whitespace, empty blocks and the '
      'Python 2 branch are not reached.',
      [('payload accumulation and decoding', 'pyasn1_modules/pem.py: readPemBlocksFromFile, readBase64fromText, '
        'readBase64FromFile')],
      files=['pyasn1_modules/pem.py'],
      technique='path-wise abstract interpretation of the readers over symbolic lines',
      note='As C14; base64 decoding itself is a trusted primitive.'),
    P('C17', 'The package works the same on every Python it claims to support',
      'On every Python version setup.py claims (2.7 and 3.5 to 3.8) and on current ones, each module and each tool '
      'parses, uses only builtins and names of the standard library that exist there unless it guards their use, and '
      'declares the same types, identifiers and registrations.',
      ['configurations', 'programs'], 'all claimed Python versions', 'The suite runs on one Python, here 3.12.',
      [('claimed versions', 'setup.py'), ('modules', 'pyasn1_modules/*.py'), ('tools', 'tools/*.py')],
      files=['pyasn1_modules/*.py', 'tools/*.py', 'setup.py'],
      technique='syntax-tree lint of grammar, names and encodings; modules elaborated for each version and compared',
      note='Grammar, encodings and names are decided construct by construct from tables of what each version has; '
           'methods of values whose type is not known are judged only by name.'),
    P('C18', 'Every public name stays available',
      'Every type, object, identifier, constant and registry name of the RFC that a module offers can be imported '
      'from that module, and is of its kind: a type, an object, a value or a registry.',
      ['programs'], 'all 3500 public names of the 130 modules',
      'A test notices a lost name only if it uses it; most names are used by no test.',
      [('module-level bindings', 'pyasn1_modules/*.py')],
      technique='abstract interpretation; module namespaces compared with a reference library', note=REF),
    P('C19', 'Every ready-made object carries exactly its RFC value',
      'Each ready-made object a module offers (an algorithm identifier, attribute, extension, content info) holds '
      'exactly the identifier and parameters its RFC gives it, and one defined as a bare type holds no value.',
      ['programs'], 'all ready-made objects of all modules, after any imports',
      'Few of these objects occur in tests, and none is compared with its RFC value.',
      [('object values set after creation', "pyasn1_modules/rfc4055.py: rSASSA_PSS_*; rfc7906.py: aa_*['attrType']")],
      technique='abstract interpretation; declared values compared with a reference library', note=REF),
    P('C20', 'Every declaration takes effect',
      'Every component list, tag, constraint, named value and field value written in a module becomes part of the '
      'type or object it is written for: none is computed and dropped, replaced before anything uses it, or stored '
      'where no codec looks.',
      ['programs'], 'all declarations of all modules',
      'A declaration without effect leaves a type too permissive; tests with valid messages pass all the same.',
      [('class attributes and assignments', 'pyasn1_modules/*.py')],
      technique='liveness analysis of declarations (dropped, overwritten or unread definitions)',
      note='Needs no reference. Exact for the four kinds of lost declaration it defines.'),
    P('C21', 'Every declared value and default satisfies its own type',
      'Every constraint can be satisfied, every default and every ready-made value is one its own type accepts, '
      'every DEFAULT component has a value to fall back on, and no CHOICE has an alternative marked OPTIONAL or '
      'DEFAULT. So a type can always be given a value, and its default can be encoded and decoded.',
      ['inputs', 'programs'], 'all constraints, defaults, enumerated values and objects',
      'A constraint no value satisfies, or a default outside its type, fails only when the component is used.',
      [('defaults and constraints', 'pyasn1_modules/*.py')],
      technique='satisfiability of resolved constraints; membership of declared values',
      note='Needs no reference. Exact for ranges, sizes, alphabets and value lists; constraints on the components of '
           'a value are not evaluated.'),
    P('C16', 'Every tool decodes its input as the type it is for',
      'Every dump tool reads the kinds of PEM block, or the one base64 message, it is named for, and decodes each as '
      'the type of its kind in its module with the DER codec: certificates, CRLs, PKCS #1, #7, #8 and #10, CRMF, CMP, '
      'OCSP and CMC. Nested content is decoded as the type its content type identifier says, whatever comes before '
      'or after it, and content of another type is not guessed at.',
      ['inputs', 'histories'], 'all inputs of all 14 tools: any number of blocks of any of their kinds in any order, '
      'any nesting and any content types',
      'No test runs any of the tools.',
      [('marker and type of each kind of block', 'tools/pkcs1dump.py, pkcs8dump.py: readPemBlocksFromFile, asn1Spec'),
       ('type by content type', 'tools/pkcs7dump.py: contentInfoMap; cmcdump.py: next_layer')],
      files=['tools/*.py'],
      observe=['the output and the exit status of tools/*.py'],
      technique='path-wise abstract interpretation of each program; source and type of every decoding against a table',
      note='All paths for inputs of up to 3 blocks (4 in the thorough tier; 2 and 3 for tools with two kinds of '
           'block), one of 1100 blocks, and nestings of up to 7 layers and one of 40. Blocks, outcomes and content '
           'types are symbolic; the table of tools is in asn1lint/toolcheck.py.'),
    P('C22', 'Each dump tool accounts for all of its input, and fails if it cannot',
      'Each dump tool prints every object it decodes, up to the end of its input, compares its encoding with what it '
      'was decoded from, and reports the number of PEM blocks it has read. It exits with a failure if the two differ, '
      'if bytes follow a base64 message or if it does not know the content, and with success if nothing is wrong '
      '(bytes after the object in a PEM block are dropped) or, but for cmcdump and pkcs7dump, if there is no input. It '
      'never hangs, and refuses a wrong command line with its usage before it reads anything.',
      ['inputs', 'histories', 'configurations'], 'all inputs and command lines of the 12 dump tools, on Python 2.7 and 3',
      'No test runs any of the tools.',
      [('decode, print, re-encode, compare', 'tools/x509dump.py and its like'),
       ('layers', 'tools/cmcdump.py: next_layer'), ('command line', 'tools/cmpdump.py: sys.argv')],
      files=['tools/*.py'],
      observe=['the output and the exit status of tools/*.py'],
      technique='path-wise abstract interpretation of each program over symbolic input; obligations on every path',
      note='As C16. Whether a re-encoding equals its source is a symbolic choice: decided is that the tool asks, and '
           'what it does with either answer. Assertions are taken to be executed.'),
    P('C24', 'The network tools ask the right question and check the answer',
      'ocspclient asks the responder at the given URL, by an HTTP POST of a DER OCSPRequest, for the status of the '
      'second certificate: SHA-1 hashes of its issuer name and of the key of the first certificate, and its serial '
      'number. It does so once, only if the first one issued it, and reports serial number, status and times '
      'only from a successful basic response. snmpget sends one BER SNMPv1 get-request for the given object and community to port 161 of the given '
      'host, and prints the message it gets.',
      ['inputs', 'configurations'], 'all certificates, responses and command lines, on Python 2.7 and 3',
      'No test runs any of the tools; they need a responder.',
      [('request', 'tools/ocspclient.py: mkOcspRequest'), ('answer', 'tools/ocspclient.py: parseOcspResponse'),
       ('SNMP message', 'tools/snmpget.py')],
      files=['tools/ocspclient.py', 'tools/snmpget.py'],
      observe=['the messages tools/ocspclient.py and tools/snmpget.py send, and their output'],
      technique='path-wise abstract interpretation; provenance of every component of the message sent',
      note='All paths, with symbolic certificates, arguments and responses; the message made is compared, component '
           'by component, with where its values must come from.'),
    P('C23', 'One identifier name means one OID, and the reverse',
      'A name for an object identifier stands for the same OID in every module that declares it, and within a module '
      'two names share an OID only where the RFC defines one as another name of the other. So no two algorithms, '
      'attributes or purposes that the RFCs tell apart are confused.',
      ['programs'], 'all pairs of OID names', 'No test compares identifiers with each other.',
      [('OID constants', 'pyasn1_modules/*.py')],
      technique='constant evaluation; uniqueness of names and values with a table of aliases',
      note='Needs no reference values: names are compared with each other; tables/oid_aliases.txt lists the aliases, '
           'with the reason.'),
    P('C25', 'Types behave like the pyasn1 types they are made of',
      'Apart from what ASN.1 declares (tags, constraints, components, names, defaults) every type behaves like the '
      'pyasn1 type it derives from: no class converts, stores, compares, copies, prints or encodes its values in a '
      'way of its own, another character encoding included. Each class can be instantiated without arguments and '
      'with any argument its base takes, so clone(), subtype() and decoding with it work. A new instance has no '
      'optional component already set, and every registry looks entries up like a plain dict.',
      ['inputs', 'programs'], 'all classes and registries, and all values of them',
      'Tests use a few values of a few types, none of which needs every method.',
      [('type classes', 'pyasn1_modules/*.py'), ('constructors', 'pyasn1_modules/rfc7191.py: siren_dn')],
      technique='class-attribute query over the elaborated classes; abstract interpretation of constructors',
      note='All classes of the package; overriding is judged by what the override does where it only passes its '
           'arguments on, and a constructor by running it abstractly with the arguments pyasn1 passes.'),
]

NOT_APPLICABLE = [
    P('C30', 'Decoding and encoding are inverse on every value',
      'For every value of every type, encoding it in DER or BER and decoding the result with the same type gives an '
      'equal value, and re-encoding a DER message gives the same bytes.',
      ['inputs'], 'all values of all types', SUITE,
      [('codecs of pyasn1', 'pyasn1.codec.der, outside this repository')], observe=['encoder.encode', 'decoder.decode']),
    P('C31', 'Malformed input is rejected with a documented error',
      'Decoding any sequence of bytes as any type either returns a value or raises the error of pyasn1, within '
      'bounded time and memory.',
      ['inputs'], 'all byte strings', 'Tests decode valid messages only.',
      [('codecs of pyasn1', 'pyasn1.codec.ber.decoder, outside this repository')]),
    P('C32', 'Decoded values convert to and from native Python and text',
      'The native-Python and pretty-printed forms of every decoded value show all of its components, and native '
      'encoding and decoding are inverse.',
      ['inputs'], 'all values of all types', SUITE,
      [('codecs of pyasn1', 'pyasn1.codec.native, outside this repository')]),
]

REASONS = {
    'C30': 'Equality of values after a round trip is decided by the run-time codecs of pyasn1, which are not part of '
           'this repository; what the repository contributes (tags, structure, unambiguity, defaults) is claimed as '
           'C01, C02, C05 and C11.',
    'C31': 'The behaviour on malformed bytes is that of the decoder of pyasn1, outside this repository, and time and '
           'memory are run-time quantities no static argument here bounds.',
    'C32': 'These conversions are done by pyasn1, outside this repository, and quantify over run-time values.',
}


def prop(p):
    anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
    if p['observe']:
        anchors['observe_at'] = p['observe']
    if p['state']:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
    anchors['hook_needed'] = None
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': anchors}


def main():
    for p in TABLE + NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 3, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(TABLE + NOT_APPLICABLE, key=lambda p: p['id']):
            f.write(json.dumps(prop(p)) + '\n')
    m = {'version': 1,
         'setup_cmd': 'python3 check.py --selftest',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                     'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                     'technique': p['technique'], 'level': 'other', 'level_note': p['note']}
                    for p in sorted(TABLE, key=lambda p: p['id'])],
         'not_applicable': [{'property': p['id'], 'reason': REASONS[p['id']]} for p in NOT_APPLICABLE],
         'notes': 'All checks are static analyses of the source under /repo (set VERIF_REPO for another tree); they '
                  'need nothing but the Python 3 standard library, run no code of the repository and write only '
                  'evidence/.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
