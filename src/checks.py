"""What each check is built from."""
TYPED = ['Rapid', 'RapidCrt', 'Nlohmann', 'JsonCpp', 'Pico', 'BoostJson', 'Poco', 'QtJson', 'QVariant']
ALL = ['Rapid', 'RapidCrt', 'Nlohmann', 'JsonCpp', 'Pico', 'BoostJson', 'Poco', 'QtJson', 'QVariant', 'Ptree', 'Yaml']
from configs import prepare as configs_prepare  # noqa: E402
CHECKS = {
    'C25': dict(src=[('c25.cpp', ['-DLIB_' + l for l in ALL])], libs=[], inc=ALL),
    'C24': dict(src=['c24.cpp'], libs=[], variant='opt', link=['-ldl'], pre=configs_prepare),
    'C01': dict(src=['c01.cpp'], libs=['Rapid'], variant='opt'),
    'C02': dict(src=['c02.cpp'], libs=['Rapid'], variant='opt'),
    'C03': dict(src=['c03.cpp'], libs=TYPED, variant='opt'),
    'C04': dict(src=['c04.cpp'], libs=['Rapid', 'Ptree'], variant='opt'),
    'C05': dict(src=['c05.cpp'], libs=['Rapid'], variant='opt'),
    'C06': dict(src=['c06.cpp'], libs=['Rapid'], variant='opt'),
    'C07': dict(src=['c07.cpp'], libs=['Rapid', 'Nlohmann']),
    'C08': dict(src=['c08.cpp'], libs=TYPED, parts=['AD']),
    'C09': dict(src=['c09.cpp'], libs=['Rapid']),
    'C10': dict(src=['c10.cpp'], libs=TYPED + ['Ptree', 'Yaml'], parts=['AD']),
    'C11': dict(src=['c11.cpp'], libs=TYPED + ['Ptree', 'Yaml'], parts=['AD', 'PARSE', 'VAL']),
    'C12': dict(src=['c12.cpp'], libs=TYPED + ['Ptree', 'Yaml'], parts=['AD', 'PARSE', 'VAL'], variant='opt'),
    'C13': dict(src=['c13.cpp'], libs=['Rapid'], variant='opt'),
    'C15': dict(src=['c15.cpp', ('dp_variant.cpp', ['-DVARIANT=chars', '-DVALIJSON_HAS_STD_FROM_CHARS=1']), ('dp_variant.cpp', ['-DVARIANT=stream', '-DVALIJSON_HAS_STD_FROM_CHARS=0']),
                     ('dp_variant.cpp', ['-DVARIANT=fast', '-DVALIJSON_HAS_STD_FROM_CHARS=0', '-DVALIJSON_HAS_FAST_FLOAT_FROM_CHARS', '-I' + __import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/shim'])],
                libs=['Rapid', 'Nlohmann', 'Ptree', 'Yaml', 'JsonCpp', 'Pico', 'BoostJson', 'Poco', 'QtJson', 'QVariant'], parts=['AD', 'PARSE', 'VAL'], variant='opt'),
    'C16': dict(src=['c16.cpp'], libs=['Rapid', 'Nlohmann', 'JsonCpp', 'Pico', 'BoostJson'], parts=['AD', 'PARSE', 'VAL']),
    'C17': dict(src=['c17.cpp'], libs=['BoostJson', 'Pico'], parts=['AD', 'PARSE', 'VAL']),
    'C18': dict(src=['c18.cpp'], libs=['Rapid', 'Nlohmann', 'Pico', 'BoostJson', 'Ptree'], parts=['AD', 'PARSE', 'VAL'], variant='tsan'),
    'C19': dict(src=['c19.cpp'], libs=['Rapid', 'Nlohmann', 'BoostJson', 'Pico'], variant='opt'),
    'C20': dict(src=['c20.cpp'], libs=TYPED + ['Ptree', 'Yaml']),
    'C21': dict(src=['c21.cpp'], libs=['Rapid', 'Nlohmann', 'Pico', 'BoostJson', 'Yaml'], variant='opt'),
    'C23': dict(src=[('c23.cpp', ['-DLIB_Rapid', '-DLIB_Nlohmann', '-DLIB_Pico', '-DLIB_BoostJson'])], libs=['Rapid', 'Nlohmann', 'Pico', 'BoostJson']),
    'C22': dict(src=[('c22.cpp', ['-DLIB_Rapid', '-DLIB_Nlohmann', '-DLIB_Pico'])], libs=['Rapid', 'Nlohmann', 'Pico'], variant='opt'),
    'C14': dict(src=['c14.cpp'], libs=['Rapid', 'Nlohmann', 'JsonCpp', 'Pico', 'BoostJson', 'QtJson']),
}

META = {
    'C01': dict(technique='property-based testing against an independent reference validator', note='Random schema/document search; trusts the reference validator in src/refval.hpp and RapidJSON as the document source.'),
    'C02': dict(technique='property-based testing against an independent reference validator per draft', note='Random search; trusts the reference validator in src/refval.hpp and RapidJSON as the document source.'),
    'C03': dict(technique='differential property-based testing across JSON libraries', note='Random search; one document text is loaded by every library.'),
    'C04': dict(technique='metamorphic and model-based property-based testing (with/without results, FIFO model)', note='Random search over (schema, document, mode) and results-object histories.'),
    'C05': dict(technique='property-based testing against an independent failure-location model', note='Random search; trusts the failure-location tracking of src/refval.hpp.'),
    'C06': dict(technique='metamorphic and model-based property-based testing of references (canonical document vs. dressed document)', note='Random search; trusts src/refval.hpp, src/uriref.hpp and the dressing in src/refs.hpp.'),
    'C07': dict(technique='stateful property-based testing with fault injection (fetch/free history, canonical document vs. documents split over a simulated web)', note='Random search; trusts src/refval.hpp, src/uriref.hpp and the dressing in src/refs.hpp; use after free is seen by AddressSanitizer.'),
    'C08': dict(technique='model-based property-based testing of pointer resolution over every adapter', note='Random search over documents and pointer spellings; trusts the pointer model in src/c08.cpp (RFC 6901 plus the documented lenient splitting).'),
    'C09': dict(technique='differential property-based testing against independent RFC 3986 / RFC 8141 implementations', note='Random search over (base, reference) pairs and strings; trusts src/uriref.hpp and the URN model in src/c09.cpp; the deviations uri.md documents are outside the domain.'),
    'C10': dict(technique='model-based property-based testing of every adapter against the generated value', note="Random search over documents loaded from text or built with each library's own storage types; memory errors are seen by AddressSanitizer."),
    'C11': dict(technique='metamorphic and model-based property-based testing of comparisons across library pairs', note='Random search over value pairs and library pairs; the oracle is exact JSON value equality of the generated values.'),
    'C12': dict(technique='model-based and metamorphic property-based testing of weak typing', note='Random search; trusts the reference validator in src/refval.hpp with the casts internal/adapter.hpp documents; cases the documentation leaves open are skipped and counted.'),
    'C13': dict(technique='model-based property-based testing against recognisers written from RFC 3339', note='Random search, plus every month end of thousands of random years; octets with leading zeros are open.'),
    'C14': dict(technique='property-based testing with byte-level generators under AddressSanitizer', note='Random search over code point sequences and malformed bytes; the oracle is the number of generated code points.'),
    'C15': dict(technique='differential and model-based property-based testing of conversions across implementations and locales', note='Random search; the oracle is the JSON number grammar and correctly rounded strtod; fast_float is the copy inside Boost.JSON.'),
    'C16': dict(technique='model-based property-based testing of programmatic schemas (random call sequences compiled from a schema, read back through a visitor and validated)', note='Random search; trusts the compiler and dump in src/build.hpp and the reference validator.'),
    'C17': dict(technique='stateful property-based testing with allocation-fault injection (tagged allocation families, counted operator new)', note='Random search over histories; each history is repeated with failing allocations; memory errors are seen by AddressSanitizer.'),
    'C18': dict(technique='stateful and concurrent property-based testing (validator/parser histories against fresh ones; threads under ThreadSanitizer)', note='Random histories and thread programs; data races are those ThreadSanitizer observes on the schedules run; system shared libraries are not instrumented.'),
    'C19': dict(technique='property-based testing against an independent judge of keyword values per draft (mutated schemas, traps in data positions)', note='Random search; trusts the judge in src/c19.cpp and src/refval.hpp; values the documented casts make acceptable are open.'),
    'C20': dict(technique='fuzzing with structured generators under AddressSanitizer, UndefinedBehaviorSanitizer and allocation accounting', note='Random search over arbitrary and damaged schemas and documents in every library; oracle: only verdicts or standard exceptions, no sanitizer report, no leak, no hang.'),
    'C21': dict(technique='metamorphic property-based testing (annotations, permutations, logical rewritings)', note='Random search over schemas, documents and chains of rewritings; the oracle is equality of acceptance and verdicts.'),
    'C22': dict(technique='stateful property-based testing with recording and fault-injecting regular expression engines against an independent reference validator', note='Random histories; matching is an arbitrary function shared with the reference validator (src/refval.hpp).'),
    'C23': dict(technique='model-based property testing of custom constraints: recorded calls, copies and consultations against a reference evaluation, with injected exceptions', note='Trusts the reference validator; custom assertions are pure functions of keyword value and instance.'),
    'C24': dict(technique='differential property testing across build configurations and generated bundles', note='Bundles for every adapter whose library is installed (json11 is not); transcripts are compared with those of the ordinary headers.'),
    'C25': dict(technique='property-based testing of loading histories over generated and damaged files', note='11 document types; files live in a scratch directory that every case removes.'),
}
# multiples of the numbers of cases in the sources that the quick tier searches,
# so that each check takes well under a minute on eight cores
QUICK = {'C01': 2, 'C02': 3, 'C03': 5, 'C04': 6, 'C05': 4, 'C06': 2.5, 'C07': 2, 'C08': 2, 'C09': 2, 'C10': 2, 'C11': 2, 'C12': 2.5, 'C13': 2.5,
         'C15': 3, 'C19': 2.5, 'C21': 2, 'C22': 2.5, 'C23': 2, 'C24': 2, 'C25': 2.5}
