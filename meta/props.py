#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""The list of properties; writes ../properties.jsonl and ../MANIFEST.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         technique=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files.split(), mech=mech, observe=observe or [], technique=technique,
                  note=note, state=state or []))


AN = 'pymorphy2/analyzer.py'
TS = 'pymorphy2/tagset.py'
W = 'pymorphy2/opencorpora_dict/wrapper.py'
ST = 'pymorphy2/opencorpora_dict/storage.py'
CO = 'pymorphy2/opencorpora_dict/compile.py'
PP = 'pymorphy2/opencorpora_dict/preprocess.py'
PA = 'pymorphy2/opencorpora_dict/parse.py'
PR = 'pymorphy2/opencorpora_dict/probability.py'
U = 'pymorphy2/units/'
SH = 'pymorphy2/shapes.py'

prop('C01', 'Known words get exactly their recorded analyses',
     'Every word form recorded in the loaded dictionary is analysed, whatever its letter case, with exactly the '
     'analyses the dictionary records for it (word, tag, normal form), none missing, none added and none duplicated. '
     'Such a word is reported as known, and its analyses never come from prediction unless it is also a single '
     'initial letter or a hyphenated word.',
     ['inputs'], 'all word forms of the dictionary (about 3 million for the installed Russian one), in any letter case',
     'tests list a few hundred words; the guarantee is for each of millions of recorded forms',
     '%s %s %sby_lookup.py pymorphy2/dawg.py' % (AN, W, U),
     [('exact lookup of the word in the DAWG and decoding of paradigms', W), ('dictionary unit is terminal', AN)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'MorphAnalyzer.word_is_known'],
     'exhaustive sweep of all recorded words with an online oracle reading the raw dictionary')

prop('C02', 'Letter substitutions: е is accepted for ё, never the reverse',
     'A token in which any subset of the ё letters is written as е gets the analyses of every recorded spelling it can '
     'stand for, each reported with the recorded spelling; a written ё is never read as е. '
     'The same holds for unknown words recognised through a prefix, an ending or a compound, and for any substitution '
     'table given by the caller, including an empty one.',
     ['inputs', 'configurations'], 'all tokens; all single-letter substitution tables',
     'tests use a handful of ё words with the default table',
     '%s %s %sby_lookup.py %sby_analogy.py' % (AN, W, U, U),
     [('substitution-aware DAWG lookup', W), ('prediction uses the same substitutions', U + 'by_analogy.py')],
     ['MorphAnalyzer.parse'], 'online differential monitor: enumeration of substitution subsets against raw lookups')

prop('C03', 'Every Unicode token is analysed, and the analyses are well formed and usable',
     'Analysing any Unicode string as a token succeeds, returns at least one analysis, and never the same analysis (same word, tag, '
     'normal form and derivation) twice; '
     'a token no rule recognises gets exactly one analysis, tagged unknown, equal to its lower-cased text. '
     'Every analysis can be asked for its tag, normal form, known-ness, lexeme, normalised form, inflections and '
     'description without an error, and none of these changes the analysis.',
     ['inputs'], 'all Unicode strings without lone surrogates',
     'tests parse a few dozen tokens; odd letters, case mappings, separators and mixed scripts are not sampled',
     '%s %s %sby_shape.py %sby_hyphen.py %sby_analogy.py %sunkn.py' % (AN, SH, U, U, U, U),
     [('the unknown-word unit at the end of the pipeline', U + 'unkn.py'), ('deduplication of analyses', U + 'utils.py')],
     ['MorphAnalyzer.parse', 'Parse.lexeme', 'Parse.normalized', 'Parse.inflect'],
     'stress workload over every code point and 45 token kinds with well-formedness monitors')

prop('C04', 'parse, tag, normal_forms and unwrapped results agree',
     'For every token the tags listed by tag() are, as a set, exactly the tags of the analyses returned by parse(), '
     'and normal_forms() are the distinct normal forms of those analyses in the same order. '
     'The tags come in order of decreasing probability when the dictionary has estimates, and an analyzer '
     'configured with another result type (or none) returns the same data from every call.',
     ['inputs', 'configurations'], 'all tokens; all result types, with and without probability estimation',
     'the separate code paths of parse() and tag() in every unit are compared on few words',
     '%s %sbase.py %sby_lookup.py %sby_analogy.py %sby_hyphen.py %sby_shape.py %sabbreviations.py' % ((AN,) + (U,) * 6),
     [('each unit implements parse and tag separately', U), ('result type wrapping', AN)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'MorphAnalyzer.normal_forms'],
     'online agreement monitor between API entry points over all token kinds')

prop('C05', 'Scores: recorded estimates are used, order is by score, scores are sane',
     'If the dictionary records corpus estimates that apply to a word, the score of each analysis is exactly the '
     'recorded estimate for its tag (0 if there is none) and analyses and tags are returned in order of non-increasing '
     'estimate. Otherwise the scores sum to 1 (unless all are zero because estimates of a part of the word are) and are '
     'proportional to the raw scores the analysis rules assign, which an analyzer without estimator (or of a dictionary without any estimates) returns as they are. '
     'Forms derived from an analysis of positive score (lexeme, inflection, normal form) have scores above 0 and up to 1.',
     ['inputs'], 'all tokens, exhaustively all words with recorded estimates',
     'tests check the score of a couple of words',
     '%s %sby_analogy.py' % (AN, U),
     [('ProbabilityEstimator.apply_to_parses / apply_to_tags', AN), ('prediction scores', U + 'by_analogy.py')],
     ['Parse.score'], 'exhaustive sweep of recorded estimates and model-based score monitor')

prop('C06', 'Lexemes are complete and stable',
     'The lexeme of an analysis contains exactly the forms of the recorded paradigm it belongs to, in order, carrying '
     'over whatever prefix, particle or hyphenated part the token had. It contains the analysed form and each of its members has that '
     'same lexeme, except for compounds whose parts are both inflected (their forms are paired by the closest tag).',
     ['inputs'], 'all tokens, all their analyses',
     'tests check some twenty lexemes',
     '%s %s %sby_lookup.py %sby_analogy.py %sby_hyphen.py %sbase.py %sutils.py' % ((AN, W) + (U,) * 5),
     [('methods stack replay', AN), ('get_lexeme of every unit', U)],
     ['MorphAnalyzer.get_lexeme', 'Parse.lexeme'], 'online model-based monitor and closure monitor on lexemes')

prop('C07', 'Normal forms are the first form of the lexeme, idempotent and shared',
     'The normal form of an analysis is the first form of its lexeme with the same decoration (prefix, particle, '
     'hyphenated part), and normalising an analysis gives the analysis of that first form. '
     'Normalising twice changes nothing, and all forms of a lexeme normalise to the same result '
     '(except for compounds whose parts are both inflected).',
     ['inputs'], 'all tokens, all their analyses and lexeme members',
     'tests check some thirty normal forms',
     '%s %s %sby_lookup.py %sby_analogy.py %sby_hyphen.py %sbase.py' % ((AN, W) + (U,) * 4),
     [('normalized() of every unit', U), ('build_normal_form', W)],
     ['Parse.normal_form', 'Parse.normalized', 'MorphAnalyzer.normal_forms'],
     'online model-based monitor with idempotence and orbit monitors')

prop('C08', 'Inflection gives a matching form of the same lexeme, the closest one',
     'Inflecting to a set of grammemes returns a form of the same lexeme carrying all of them, and None only if the '
     'lexeme has no such form (a rare case being replaced by its common case when no form has it). '
     'Among matching forms the one sharing most with the current form (after removing conflicting grammemes) is '
     'chosen, and unknown grammemes raise ValueError.',
     ['inputs'], 'all analyses and all grammeme sets',
     'tests inflect a few dozen words to one or two grammemes',
     '%s %s' % (AN, TS),
     [('MorphAnalyzer._inflect', AN), ('updated_grammemes, fix_rare_cases', TS)],
     ['Parse.inflect'], 'online oracle over lexeme x grammeme-set workload')

prop('C09', 'Agreement with numerals follows the rule for every tag and number',
     'For every tag and every non-negative integer the grammemes required of the counted word are those of the '
     'Russian agreement rule (last two digits 11-14, last digit 1, 2-4, otherwise; nominative/accusative and '
     'animacy/gender special cases), and nothing is required of parts of speech that do not agree. '
     'Making a word agree gives the form of its lexeme carrying those grammemes, and the answer is the caller\'s own: '
     'changing it does not change later answers.',
     ['inputs', 'histories'], 'all tags x all residues modulo 100, and words of every declension class',
     'tests check about 60 (word, number) pairs',
     '%s %s' % (AN, TS),
     [('numeral_agreement_grammemes, _NUMERAL_AGREEMENT_GRAMMEMES', TS), ('Parse.make_agree_with_number', AN)],
     ['OpencorporaTag.numeral_agreement_grammemes', 'Parse.make_agree_with_number'],
     'exhaustive tag x number sweep against an independently written rule, with mutation of results')

prop('C10', 'Tags behave as the set of grammemes they are written with',
     'A tag contains a grammeme (or a set, or a comma-free query) exactly if its text lists it; its part of speech, case, '
     'number, gender and other attributes are the member of the category listed (the first one, if there are several), or None; unknown grammemes and '
     'invalid attribute comparisons raise instead of answering. Equality, hash and order are consistent with the text, '
     'and productivity is decided by the listed grammemes.',
     ['inputs'], 'all dictionary tags x all grammemes, attributes and queries',
     'tests use about ten tags',
     TS, [('OpencorporaTag.__contains__, grammemes, _select_grammeme_from', TS)],
     ['OpencorporaTag'], 'exhaustive sweep tags x grammemes with the tag text as oracle')

prop('C11', 'Cyrillic names of tags and grammemes translate both ways without loss',
     'Translating any tag or list of grammemes to Cyrillic names and back restores it, separators kept; '
     'each known grammeme translates to the name recorded in the dictionary, and what is not a grammeme is left as it is. '
     'The Cyrillic rendering of a tag has the same structure as the tag.',
     ['inputs'], 'all tags, grammemes and mixed strings',
     'tests check a few tags', TS, [('lat2cyr, cyr2lat, cyr_repr', TS)],
     ['OpencorporaTag.lat2cyr', 'OpencorporaTag.cyr2lat', 'OpencorporaTag.cyr_repr'],
     'exhaustive two-way sweep against the raw alias column')

prop('C12', 'Prefix prediction reproduces the analyses of the remainder',
     'A word that starts with a known prefix, or with 1 to 5 unknown letters before a dictionary word of at least '
     'three letters (known prefixes: remainder of at least three letters, analysed by the usual rules), is analysed as '
     'the remainder, with the prefix attached to the word, normal form and all forms of the lexeme and the same tag. '
     'Only productive parts of speech are predicted, scores are those of the remainder lowered by a fixed factor, and '
     'unknown words are never reported as known.',
     ['inputs'], 'all prefixes of the list and all unknown prefixes x all remainders',
     'tests use fewer than 20 prefixed words; there are over 100 known prefixes',
     '%sby_analogy.py pymorphy2/lang/ru/config.py' % U,
     [('KnownPrefixAnalyzer, UnknownPrefixAnalyzer', U + 'by_analogy.py')],
     ['MorphAnalyzer.parse'], 'model-based online monitor over a generated prefix x remainder workload')

prop('C13', 'Prediction by ending uses the longest recorded ending and its counts',
     'An unknown word is analysed like the dictionary words sharing its longest recorded ending (for each paradigm prefix '
     'the word starts with), with the paradigms, forms and productive parts of speech recorded for that ending; the score '
     'of each analysis is proportional to the recorded count. The analysed word keeps its beginning, and its normal form and '
     'lexeme follow the predicted paradigm.',
     ['inputs'], 'all unknown words; every ending of the prediction tables',
     'tests use about 20 unknown words; the tables hold hundreds of thousands of endings',
     '%sby_analogy.py %s' % (U, W),
     [('KnownSuffixAnalyzer', U + 'by_analogy.py'), ('prediction suffix DAWGs', W)],
     ['MorphAnalyzer.parse'], 'model-based online monitor and a sweep over all recorded endings')

prop('C14', 'Hyphenated words and particles are analysed by composition',
     'A word with a hyphenated particle is analysed as the word without it, with the particle kept in all forms; '
     'a compound of two parts is analysed as its right part with the left part kept fixed, or with both parts inflected '
     'together when their analyses match in all the compared features; "по-" adverbs are recognised from the dative '
     'of the adjective. The compound rule never applies to more than two parts, to a missing part, or to words '
     'starting with a known prefix.',
     ['inputs'], 'all pairs of parts, particles and positions of hyphens',
     'tests use about 30 hyphenated words',
     '%sby_hyphen.py' % U,
     [('HyphenSeparatedParticleAnalyzer, HyphenatedWordsAnalyzer, HyphenAdverbAnalyzer', U + 'by_hyphen.py')],
     ['MorphAnalyzer.parse', 'Parse.lexeme'], 'model-based online monitor over a generated compound workload')

prop('C15', 'Numbers, punctuation, Latin and Roman tokens are classified by their shape',
     'A token that is not in the dictionary is analysed as an integer or real number exactly if it is one, as punctuation '
     'exactly if it consists of punctuation characters only, and otherwise as Latin exactly if all its letters are Latin '
     '(at least one) and as a Roman numeral exactly if it is a well-formed one from 1 to 4999. '
     'Such a token gets these analyses only, one per shape, each with the lower-cased token as word, normal form and only form. '
     'Tokens without such a shape never get such an analysis, except for what another rule takes from an analysed remainder.',
     ['inputs'], 'all tokens; exhaustively one-character tokens and short Roman-letter strings',
     'tests list about 40 tokens', '%s %sby_shape.py' % (SH, U),
     [('shape predicates', SH), ('shape units', U + 'by_shape.py')],
     ['MorphAnalyzer.parse'], 'exhaustive small-token sweeps against arithmetic and Unicode-category oracles')

prop('C16', 'Initials: exactly single upper-case letters of the alphabet',
     'A token which is a single upper-case letter that may start a name gets, in addition to its other analyses, readings as '
     'first-name and patronymic initials of each gender in each of the six cases, in this fixed list; no other token gets any. '
     'Each such reading has itself as its normal form and is inflected within its own gender and kind.',
     ['inputs', 'configurations'], 'all one- and two-character tokens, with and without probability estimation',
     'tests check three initials', '%sabbreviations.py' % U,
     [('InitialsAnalyzer', U + 'abbreviations.py')],
     ['MorphAnalyzer.parse', 'Parse.lexeme'], 'exhaustive single-letter sweep against the written-out list')

prop('C17', 'Closed word classes are never predicted',
     'A token that is not recorded in the dictionary and contains no hyphen never gets an analysis as a pronoun, numeral, '
     'preposition, conjunction, particle, predicative or interjection. '
     'This holds for prefix and ending prediction, by parse and by tag alike.',
     ['inputs'], 'all unknown tokens, in particular closed-class words with something attached',
     'tests do not try closed-class remainders', '%sby_analogy.py %s' % (U, TS),
     [('is_productive', TS), ('prediction units filter by it', U + 'by_analogy.py')],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag'], 'invariant monitor over adversarial closed-class workload')

prop('C18', 'Compiling a dictionary neither loses nor invents word forms',
     'After a source dictionary is compiled, each of its lexemes can be found with all its forms and tags, in order, starting '
     'from any of its forms; lexemes joined by the dictionary\'s links (except the excluded kinds) form one lexeme with the '
     'normal form of the link\'s target side. No other forms exist in the compiled dictionary, whatever the shape of the words '
     '(suppletive, empty, repeated, prefixed, sharing nothing).',
     ['inputs'], 'all source dictionaries and link graphs',
     'tests compile one tiny dictionary', '%s %s pymorphy2/utils.py' % (CO, PA),
     [('_join_lexemes, _to_paradigm, _linearized_paradigm', CO), ('longest_common_substring', 'pymorphy2/utils.py')],
     ['compile_parsed_dict', 'pymorphy dict compile'],
     'random source dictionaries compiled and decoded by an independent reader; conservation checker')

prop('C19', 'The prediction tables of a compiled dictionary are the true counts',
     'For each paradigm prefix, the recorded (ending, paradigm, form, count) entries of a compiled dictionary are exactly '
     'those of its productive paradigms that are popular enough, for endings within the length limit that are frequent enough, '
     'with the true counts. For an ending and a part of speech only the most frequent candidates are kept.',
     ['inputs', 'configurations'], 'all source dictionaries and all compilation options',
     'tests do not look into the prediction tables', CO,
     [('_suffixes_prediction_data', CO)], ['compile_parsed_dict'],
     'random dictionaries x random options against brute-force recounting')

prop('C20', 'Tag simplification keeps the meaning of tags',
     'Compiling replaces the redundant case grammemes by their main cases and gives one spelling to tags that list the same '
     'grammemes in different order (tags that only divide them differently between lexeme and form are kept, unless told '
     'otherwise), changing nothing else about a tag; forms of initials are left out. The spelling chosen is the most '
     'frequent one, for every form of the dictionary, and simplifying again changes nothing.',
     ['inputs'], 'all source dictionaries',
     'tests check two small cases', '%s %s' % (PP, CO),
     [('simplify_tags, drop_unsupported_parses, tag2grammemes', PP)],
     ['compile_parsed_dict'], 'random dictionaries with adversarial tags; per-form tag oracle')

prop('C21', 'Saved dictionaries load back unchanged; unusable ones are refused',
     'A compiled dictionary saved to disk and loaded again has exactly the same paradigms, tags, words, predictions, metadata '
     'and grammemes, under either backend. Dictionaries of another format version, or with a missing or truncated file, are '
     'refused with an error instead of being misread, and an existing folder is not touched unless overwriting is asked for.',
     ['inputs', 'configurations'], 'all dictionaries, format versions and output folders',
     'tests save nothing and load only the installed dictionary', '%s pymorphy2/utils.py pymorphy2/dawg.py' % ST,
     [('save_compiled_dict, load_dict, _assert_format_is_compatible', ST)],
     ['load_dict', 'save_compiled_dict', 'convert_to_pymorphy2'], 'round-trip monitor over random dictionaries and mutated metadata')

prop('C22', 'An interrupted compilation never leaves a mixed-up dictionary behind',
     'If saving a dictionary (to a new folder, over an old dictionary, or adding estimates) is killed at any point or any file '
     'operation fails, then what is left is either refused when loaded or is completely the new (or completely the old) '
     'dictionary. A failed operation is reported to the caller as a failure, never as success.',
     ['crash_points', 'fault_sequences'], 'every file operation of saving x {kill before, during, after; fail once, fail from then on}',
     'no test interrupts anything', '%s %s pymorphy2/utils.py' % (ST, PR),
     [('meta.json is written last (and removed first)', ST)],
     ['save_compiled_dict', 'add_conditional_probability', 'load_dict'],
     'fault injection at every file operation with a preloaded library; offline checker on the folder left behind')

prop('C23', 'Threads sharing one analyzer get single-threaded results',
     'When several threads use the same analyzer at the same time, each call returns exactly what it returns in a single '
     'thread, including the first calls on a fresh analyzer and calls on shared analyses and tags. '
     'No interleaving raises an error.',
     ['schedules'], 'all interleavings of 2-4 threads at every executed line of the library',
     'the threading tests run a free-running pool that hardly ever switches inside a call',
     '%s %s %s pymorphy2/cache.py %s' % (AN, TS, W, U + 'by_analogy.py'),
     [('analyzers are read-only after creation; lazily computed tag attributes', TS)],
     ['MorphAnalyzer', 'OpencorporaTag'], 'cooperative scheduler with preemption at every line; per-call linearizability monitor')

prop('C24', 'Creating, loading or compiling in other threads disturbs nobody',
     'While analyzers are being created, dictionaries loaded or compiled, or analyzers unpickled in other threads, each analyzer '
     'already in use (or being created) keeps returning what it returns alone, and each compilation has the same result as alone. '
     'No interleaving raises an error.',
     ['schedules'], 'all interleavings of uses with creations, loads, unpicklings and compilations',
     'tests create analyzers in threads without forced switches and never compile concurrently',
     '%s %s %s %s' % (AN, TS, ST, CO),
     [('class-level grammeme tables initialised at load time', TS), ('per-dictionary tag classes', ST)],
     ['MorphAnalyzer()', 'load_dict', 'compile_parsed_dict'], 'cooperative scheduler with cold class state; per-call oracle')

prop('C25', 'Results never depend on what was done before',
     'A call returns the same result whatever was called before it: other calls, failing or interrupted ones, abandoned '
     'iterators, results or arguments changed afterwards by the caller, other analyzers created, dictionaries loaded, '
     'compiled or pickled. Arguments passed in are never modified.',
     ['histories'], 'all histories of API operations in one process',
     'tests use one shared analyzer and never compare with a fresh one',
     '%s %s %s %s %sutils.py' % (AN, TS, ST, W, U),
     [('no mutable state is handed out', TS), ('per-analyzer caches', W)],
     ['all public API'], 'differential monitor: fresh process vs random history; injected exceptions')

prop('C26', 'Pickled or copied analyzers and tags behave like the originals',
     'An analyzer restored from a pickle (any protocol, here or in another process, before or after use) or copied gives the '
     'same results as the original in every call, keeping its configuration (result type, units, estimator, substitutions). '
     'Tags survive pickling and copying with their text, equality, hash and attributes.',
     ['configurations', 'histories'], 'all configurations of analyzers x protocols; all tags',
     'tests pickle the default analyzer and one tag', '%s %s' % (AN, TS),
     [('MorphAnalyzer.__reduce__', AN), ('OpencorporaTag.__reduce__', TS)],
     ['pickle.dumps', 'copy.copy'], 'differential monitor original vs restored on a mixed workload')

prop('C27', 'The compiled and the pure-Python backend give the same results',
     'Every call returns the same result with the fast compiled dictionary backend as with the pure-Python one, including '
     'the order of analyses and forms, scores, prefix iteration and known-word questions. '
     'The same dictionary files serve both.',
     ['inputs', 'configurations'], 'all calls and tokens under both backends',
     'tests run under each backend separately and never compare them', 'pymorphy2/dawg.py %s' % W,
     [('assert_can_create, DAWG wrappers', 'pymorphy2/dawg.py')],
     ['MorphAnalyzer'], 'two recorded event logs compared offline')

prop('C28', 'Tokenization loses nothing and splits at the documented places',
     'The tokens of any text, concatenated, are the text without its whitespace; a maximal run of letters, digits, underscores '
     'and hyphens that is a word with inner hyphens is one token, and any other visible character is a token of its own. '
     'Splitting a text at whitespace first gives the same tokens, and tokenizing takes time proportional to the text.',
     ['inputs'], 'all Unicode texts', 'tests use 7 texts', 'pymorphy2/tokenizers.py',
     [('GROUPING_SPACE_REGEX, simple_word_tokenize', 'pymorphy2/tokenizers.py')],
     ['simple_word_tokenize'], 'conservation, maximality and homomorphism monitors over every code point and random texts')

prop('C29', 'Restoring letter case changes case only, part by part',
     'Restoring the capitalization of a word by an example never changes anything but letter case: each hyphen-separated part '
     'becomes all upper case, capitalised or lower case like the corresponding part of the example, and lower case where '
     'the example has no corresponding part. Applying it again with the same example changes nothing.',
     ['inputs'], 'all pairs of words and examples', 'tests use 16 pairs', SH,
     [('restore_capitalization', SH)], ['pymorphy2.shapes.restore_capitalization'],
     'exhaustive case-pattern sweep with invariants')

prop('C30', 'The command line gives one result line per token, equal to the API',
     'The parse command prints, for any text and any combination of options, one line per token in the order of the input '
     '(regardless of the caching option), and each line shows exactly what the API says about the token: its analyses, lemmas, '
     'tags and scores above the threshold, as the options ask. Every option the help lists is accepted, and the meta command '
     'shows all the metadata of the dictionary.',
     ['inputs', 'configurations'], 'all texts x all option combinations',
     'tests run two commands', 'pymorphy2/cli.py pymorphy2/cache.py',
     [('parse, _ParserCommand / TokenParserFormatter, memoized_with_single_argument', 'pymorphy2/cli.py')],
     ['pymorphy parse', 'pymorphy dict meta'], 'offline checker of the output log against the API, options x texts')

prop('C31', 'Membership and prefix iteration enumerate the dictionary exactly',
     'Iterating over the known words with a prefix yields every recorded analysis of every recorded word starting with it, '
     'once, and nothing else; every result is a usable known analysis. '
     'Asking whether a word is known answers yes exactly for recorded words (or, unless strict, for words reachable by letter '
     'substitutions), in any letter case.',
     ['inputs'], 'all prefixes and words', 'tests ask about a few words and one prefix',
     '%s %s %sby_lookup.py' % (AN, W, U), [('iter_known_words, word_is_known', W), ('iter_known_word_parses', AN)],
     ['MorphAnalyzer.iter_known_word_parses', 'MorphAnalyzer.word_is_known'], 'conservation checker: multiset of results vs raw dictionary')

prop('C32', 'An analyzer uses the dictionary and language rules its configuration names',
     'The dictionary is the one given by path, otherwise the one named by the PYMORPHY2_DICT_PATH environment variable, '
     'otherwise the installed one for the language; the rules are those of the language asked for, otherwise of Russian when '
     'no path is given, otherwise of the language the dictionary declares. '
     'A mismatch of languages warns, a missing dictionary or unknown language raises an error, and explicit substitution, '
     'unit and estimator arguments replace the defaults of the language and nothing else.',
     ['configurations', 'environment'], 'all combinations of arguments, environment variable and declared language',
     'tests construct analyzers in a few default configurations',
     '%s %s pymorphy2/lang/__init__.py' % (AN, ST),
     [('MorphAnalyzer.__init__ / choose_dictionary_path / choose_language', AN), ('lang_dict_path', AN)],
     ['MorphAnalyzer(...)'], 'exhaustive configuration matrix, behaviour of each analyzer compared with the reference model '
     'of the dictionary and language the precedence gives')

prop('C33', 'Custom pipelines: units are asked in order, groups stop at the first hit',
     'With any pipeline of analysis units, nested groups included, the units are asked in the order given; all units of a '
     'group are asked, and nothing after the first group that has found something. '
     'The results are those of the units asked, without duplicates, and lexemes, normal forms and tags are obtained from '
     'the unit that produced the analysis; unit objects given to several analyzers, or pickled, do not influence each other. '
     'Units and estimators may create and use analyzers of their own.',
     ['inputs', 'configurations'], 'all pipelines of units x all tokens', 'tests use the default pipeline and one or two others',
     '%s %sbase.py %sunkn.py' % (AN, U, U),
     [('_init_units, parse / tag pipeline loop, terminal flags', AN), ('unit cloning', U + 'base.py')],
     ['MorphAnalyzer(units=...)'], 'trace-specification checker over recorded unit calls; differential monitor for library units')

prop('C34', 'Estimates of P(tag|word) are the smoothed counts of the corpus',
     'Estimating from a disambiguated corpus records, for exactly the ambiguous dictionary words seen there in an unambiguous '
     'reading the dictionary has, the Laplace-smoothed relative frequency of each of its tags, counted regardless of letter '
     'case. The rest of the dictionary stays as it was apart from metadata describing the estimate, and analyzers of the '
     'dictionary return these estimates as scores.',
     ['inputs'], 'all corpora', 'no test runs the estimation on a dictionary',
     '%s pymorphy2/cli.py %s' % (PR, AN),
     [('estimate_conditional_tag_probability, build_cpd_dawg, add_conditional_tag_probability', PR)],
     ['add_conditional_tag_probability', 'MorphAnalyzer.parse'], 'brute-force recount of each corpus against the written estimates')

prop('C35', 'A Ukrainian dictionary is analysed by the Ukrainian rules',
     'An analyzer of a Ukrainian dictionary accepts г for ґ (never the reverse) and uses the Ukrainian prefixes, particles and '
     'initial letters in the same analysis rules; Russian substitutions, prefixes, particles and letters have no effect. '
     'This holds for known and unknown tokens of any shape.',
     ['inputs', 'configurations'], 'all tokens x all Ukrainian dictionaries', 'the Ukrainian dictionary is not installed, so no test analyses Ukrainian words',
     'pymorphy2/lang/uk/__init__.py pymorphy2/lang/uk/_prefixes.py pymorphy2/lang/__init__.py %s' % AN,
     [('language configuration', 'pymorphy2/lang/uk/__init__.py'), ('choice of units', AN)],
     ['MorphAnalyzer(lang="uk").parse'], 'differential monitor against the reference model with the recorded Ukrainian data')

prop('C36', 'The letter case of a token never matters, except for initials',
     'All answers about a token (analyses with scores, tags, normal forms, known-ness, lexemes and inflections) are the same '
     'for every way of writing it in upper and lower case, and everything returned is lower-case. '
     'Only single upper-case letters get the additional readings as initials.',
     ['inputs'], 'all tokens in all letter cases', 'tests check a few capitalised words',
     '%s %sbase.py %sby_shape.py %sabbreviations.py' % (AN, U, U, U),
     [('lower-casing before the pipeline', AN), ('Roman, Latin shapes', U + 'by_shape.py')],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'MorphAnalyzer.normal_forms'], 'metamorphic monitor over random letter cases')

prop('C37', 'OpenCorpora XML is read completely, however it is written',
     'Reading a source dictionary gives exactly its lexemes, forms, grammemes, links, version and revision, whatever the '
     'encoding, quoting, order of sections and attributes, white space, or unknown elements. '
     'Truncated or damaged XML is an error, and no dictionary is compiled from it.',
     ['inputs'], 'all well-formed XML serialisations of a dictionary, all truncation points', 'tests read one small file',
     '%s %s' % (PA, CO), [('parse_opencorpora_xml, get_dictionary_info', PA), ('convert_to_pymorphy2', CO)],
     ['parse_opencorpora_xml', 'convert_to_pymorphy2'], 'generated dictionaries serialised in many ways; the generator is the oracle')

prop('C38', 'Compilation is reproducible',
     'Compiling the same source with the same options always writes the same dictionary, file by file (the recorded time of '
     'compilation apart): again in the same process, after other work, in a fresh process, in concurrent threads, over an '
     'existing dictionary. Neither the order of the lemma elements in the source nor the values of their ids (as long as '
     'they keep their order) matter.',
     ['inputs', 'histories', 'schedules'], 'all source dictionaries, options and process histories',
     'tests compile one file once', '%s %s %s' % (CO, PP, ST),
     [('ids of paradigms, tags and suffixes are assigned in order', CO), ('lexemes sorted by id', CO)],
     ['convert_to_pymorphy2'], 'differential monitor: byte comparison of repeated compilations')

prop('C39', 'The work for one token is bounded by a polynomial of its length',
     'Analysing any token takes a number of steps bounded by a low polynomial of its length, proportional to the number of '
     'sub-tokens the documented rules consider; building a lexeme or inflecting takes work proportional to its forms. '
     'So no token can stall a program.',
     ['inputs'], 'all tokens', 'tests do not measure work', '%s %sby_analogy.py %sby_hyphen.py %sutils.py pymorphy2/utils.py' % (AN, U, U, U),
     [('limits of prefix and ending lengths', U + 'by_analogy.py'), ('terminal groups of units', AN)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'Parse.lexeme'], 'call counters against a polynomial and against an independent count of sub-tokens')

prop('C40', 'Using the library does not make it grow',
     'However many different tokens are analysed, the data kept by the analyzer and the library stays bounded. '
     'Analyzers, dictionaries and units that are no longer used can be freed, and neither creating analyzers, compiling '
     'dictionaries nor failing to load them leaves files open or adds to global state every time.',
     ['histories'], 'all histories of API calls', 'tests do not measure memory', '%s %s %s pymorphy2/shapes.py %s' % (AN, ST, TS, W),
     [('no per-token caches', AN), ('Tag class shared by dictionaries', ST)],
     ['MorphAnalyzer', 'pymorphy2 modules'], 'object-graph census before and after workloads; weak references and descriptor counts')


prop('C41', 'Answers depend on no hash seed, locale, folder or Python implementation',
     'The same questions to the same dictionary have the same answers, in the same order, in every process: whatever the '
     'hash seed, the optimization flags (-O, -OO), the locale, the working directory (also with a relative path of the '
     'dictionary), under CPython as under PyPy. Compiling the same source writes the same files (the compilation time '
     'apart) in all of them.',
     ['inputs', 'environments'], 'all questions and all process environments', 'the tests run in one environment of one '
     'interpreter, whose sets keep the order of insertion', '%s %s %s %s %s %s' % (AN, ST, TS, W, PR, CO),
     [('order of analyses', AN), ('choice of spellings and paradigms', CO), ('reading of dictionary files', ST)],
     ['MorphAnalyzer', 'Parse', 'convert_to_pymorphy2'], 'the same job in processes with different environments, answers and files compared')


prop('C42', 'A loaded analyzer does not depend on its files any more',
     'Once an analyzer is created, nothing that happens to the dictionary folder (removed, moved, truncated, overwritten by '
     'another dictionary, compiled over), to the working directory or to the environment variables changes any answer '
     'or makes one fail; analyses obtained before keep working, too.',
     ['histories'], 'all changes of the file system after loading x all questions', 'no test changes the files of a dictionary in use',
     '%s %s %s' % (ST, W, AN),
     [('everything is read by load_dict and the constructor', ST), ('estimates are read by ProbabilityEstimator', AN)],
     ['MorphAnalyzer', 'Parse'], 'answers after hostile changes of the files compared with those of an undisturbed analyzer')


def dump():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf8') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                     observe_at=p['observe'], hook_needed=None)
            if p['state']:
                a['state'] = p['state']
            for fn in p['files']:
                assert os.path.exists('/repo/' + fn), fn
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        mod = importlib.import_module('mon.checks.' + p['id'].lower())
        note = p['note'] or 'Holds on every execution observed (see the evidence file for the counts).'
        if getattr(mod, 'EXHAUSTIVE', None):
            note += ' Exhaustive over: %s.' % mod.EXHAUSTIVE
        if mod.ASSUMPTIONS:
            note += ' Assumes: %s.' % '; '.join(mod.ASSUMPTIONS)
        checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s' % p['id'],
                           thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                           technique='runtime monitoring: ' + p['technique'],
                           level=mod.LEVEL, level_note=note))
    man = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=[],
               notes='Every check runs the code of /repo\'s working tree (PYTHONPATH=/repo) in the two installed '
                     'environments: with the compiled DAWG extension and with the pure-Python reader.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf8') as f:
        json.dump(man, f, ensure_ascii=False, indent=1)
        f.write('\n')
    design()


def design():
    with open(os.path.join(HERE, 'design_head.md'), encoding='utf8') as f:
        out = [f.read().rstrip() + '\n\n## Properties\n']
    for p in P:
        mod = importlib.import_module('mon.checks.' + p['id'].lower())
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append(p['statement'] + '\n')
        out.append('* Quantified over: %s (%s).' % (p['text'], ', '.join(p['over'])))
        out.append('* Decided by: %s (level: %s).' % (p['technique'], mod.LEVEL))
        out.append('* Workload, monitors, oracle: ' + mod.RULE)
        if getattr(mod, 'EXHAUSTIVE', None):
            out.append('* Exhaustive over: %s.' % mod.EXHAUSTIVE)
        if mod.ASSUMPTIONS:
            out.append('* Assumes: %s.' % '; '.join(mod.ASSUMPTIONS))
        for tier in ('quick', 'thorough'):
            legs = mod.legs(tier)
            out.append('* Legs (%s): %s.' % (tier, ', '.join('%s (%s) x %d' % (
                l['name'], l['venv'], l.get('shards', 1)) for l in legs)))
        out.append('* Beyond the tests: %s.\n' % p['why'])
    sd = os.path.join(ROOT, 'seeded')
    if os.path.isdir(sd):
        caught = {}
        fn = os.path.join(HERE, 'caught.json')
        if os.path.exists(fn):
            with open(fn) as f:
                caught = json.load(f)
        out.append('## Planted bugs\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|')
        for b in sorted(os.listdir(sd)):
            with open(os.path.join(sd, b, 'meta.json'), encoding='utf8') as f:
                mt = json.load(f)
            out.append('| %s | %s | %s | %s | %s |' % (b, mt['property'], mt['needs'], mt['what_it_breaks'],
                                                 ', '.join(caught.get(b, [])) or 'not recorded'))
        out.append('')
    tail = os.path.join(HERE, 'design_tail.md')
    if os.path.exists(tail):
        with open(tail, encoding='utf8') as f:
            out.append(f.read())
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf8') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    dump()
