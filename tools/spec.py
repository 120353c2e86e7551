#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing; both outputs are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe=(), level='exploration', technique='', note='',
         state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(
        row={'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
             'why_tests_cant': why,
             'anchors': {'files': ['scrappybara/' + f for f in files],
                         'state': [{'name': n, 'meaning': m, 'where': 'scrappybara/' + w} for n, m, w in state],
                         'mechanism': [{'name': n, 'where': 'scrappybara/' + w} for n, w in mechanism],
                         'observe_at': list(observe), 'hook_needed': None}},
        level=level, technique=technique, note=note))


# PIPELINE ---------------------------------------------------------------------------------------------------------

prop('C01', 'Each text yields its own document, in order, complete',
     'For any list of texts the pipeline returns exactly one document per text, in the order of the texts. Each document holds '
     'exactly the sentences its sentence splitter produced for that text, in order (sentences over the length limit aside), and each '
     'sentence holds exactly the semantic tuples that sentence yields when it is processed alone: nothing is lost, duplicated, '
     'reordered or attributed to another text.',
     ['inputs', 'configurations'],
     'any number of texts (0 included), any number of sentences per text (0 included), any sentence lengths, repeated texts, any number of cores and batch size',
     'test_pipeline.py needs weights that are not in the repository, so nothing runs; it would only try two texts with one configuration.',
     ['pipeline/pipeline.py', 'pipeline/logic_pipeline.py', 'pipeline/document.py', 'syntax/parser.py', 'utils/multithreading.py'],
     [('sentence ranges per text, flattening and regrouping', 'pipeline/pipeline.py: Pipeline.__call__'),
      ('order-preserving parallel map', 'utils/multithreading.py: run_multithreads'),
      ('batches', 'syntax/parser.py: Parser.__call__')],
     ['documents returned by the pipeline'],
     technique='runtime monitoring: exactly-once/ordering checker over uniquely identified sentences',
     note='Every sentence carries a unique id token, so each tuple identifies the sentence it came from; the expected history is '
          'computed by running each sentence alone through the logic stage and by a reference model. Holds on the observed runs; the neural models are '
          'oracles played by the harness.')

prop('C02', 'Results do not depend on cores, batch size, device flag or neighbours',
     'The documents obtained for a text are the same whatever the number of cores, the batch size, the GPU flag and whatever other '
     'texts are processed in the same call, before it or after it.',
     ['configurations', 'schedules', 'inputs'],
     'all numbers of cores (1 to more than the number of sentences), all batch sizes (1 to more than the number of sentences), both device flags, any neighbouring texts, any thread schedule',
     'No existing test runs the pipeline with two configurations; the pipeline test cannot run here at all.',
     ['pipeline/pipeline.py', 'syntax/parser.py', 'utils/multithreading.py', 'utils/mutables.py', 'langmodel/smoother.py'],
     [('run_multithreads, divide_list', 'utils/multithreading.py'), ('make_batches', 'syntax/parser.py: Parser.__call__'),
      ('parallel probability computation', 'langmodel/smoother.py')],
     ['documents returned by the pipeline'],
     technique='runtime monitoring: differential monitor of the same texts under many configurations and neighbours',
     note='Metamorphic oracle on recorded outputs, with model oracles whose answers depend on the content of each sentence only.')

prop('C03', 'A failure in one item surfaces, results are never silently dropped',
     'When processing of any item fails, in any worker and at any stage (sentence splitting, encoding, prediction, tuple extraction, n-gram '
     'counting or probability computation), the whole call raises the error instead of returning missing, shifted or partial results. The object '
     'stays usable: the next call without failure gives the correct results.',
     ['fault_sequences', 'configurations'],
     'every stage, every item position, every number of workers, one or several simultaneous failures, followed by further calls',
     'No existing test injects a failure.',
     ['utils/multithreading.py', 'pipeline/pipeline.py', 'pipeline/logic_pipeline.py', 'syntax/parser.py', 'langmodel/smoother.py'],
     [('errors captured in worker threads and re-raised', 'utils/multithreading.py: run_multithreads')],
     ['exception raised by the call', 'results of the call'],
     level='fault_enumeration',
     technique='runtime monitoring with fault injection at every stage and item position',
     note='Faults are injected from outside (sentence splitter, token objects, language model, model oracles, text iterator) at '
          'enumerated and random positions.')

prop('C04', 'Components keep no memory between calls and can be shared by threads',
     'One tokenizer, sentence splitter, language model, lemmatizer or pipeline object used many times, in any order, or by several threads at once gives for each input '
     'the same result as a fresh object used once. The inputs it is given are left unmodified.',
     ['histories', 'schedules'],
     'all call histories and all interleavings of concurrent calls on a shared object',
     'Existing tests call each component once per input from one thread.',
     ['preprocessing/tokenizer.py', 'preprocessing/sentencizer.py', 'langmodel/language_model.py', 'normalization/lemmatizer.py',
      'pipeline/logic_pipeline.py', 'pipeline/pipeline.py', 'utils/tree.py'],
     [('all per-call state is local', 'preprocessing/sentencizer.py: Sentencizer.__call__'),
      ('nodes and trees are created per sentence', 'syntax/nodifier.py')],
     ['results of concurrent and repeated calls'],
     technique='runtime monitoring under a controlled thread scheduler: line-level interleavings, results compared with fresh single-use objects',
     note='Interleavings are chosen by a seeded scheduler at line granularity inside the code under test; the evidence counts distinct '
          'schedules observed.')

prop('C05', 'Over-long sentences are re-split at delimiters, others kept intact',
     'A sentence of at most 50 tokens is analysed as it is. A longer one is replaced by the runs of tokens between the delimiters '
     ': " ; ( ) [ ] { } - , each run being analysed as a sentence of its own in order, and only runs still longer than 50 tokens are dropped. A sentence of '
     'more than 50 tokens given directly to the encoder or the parser is refused with an error.',
     ['inputs'],
     'all sentence lengths around and above the limit, any placement of delimiters (leading, trailing, adjacent)',
     'No existing test has a sentence longer than the limit.',
     ['pipeline/pipeline.py', 'syntax/training_samples.py', 'config.py'],
     [('re-splitting', 'pipeline/pipeline.py: Pipeline.__split_tokens'), ('SentenceTooLongError', 'syntax/training_samples.py: vectorize_sentence')],
     ['documents returned by the pipeline', 'sentences the model oracles are asked about'],
     technique='runtime monitoring: recorded sentences reaching the models compared with a reference splitter',
     note='Lengths are drawn around the limit; the monitor records every sentence that reaches the models.')

# PREPROCESSING ----------------------------------------------------------------------------------------------------

prop('C06', 'Tokenization loses, invents and reorders no character',
     'For every text, the tokens concatenated spell the text without its blanks, up to the normalisations: typographic quotes become '
     'straight, runs of long dashes become a hyphen, foot and inch marks after a number become ft and in, a run of stars between letters becomes one star. Every token is a non-empty string without '
     'blanks, and no internal placeholder ever appears in a token; the empty text has no token.',
     ['inputs'],
     'all Unicode texts, except texts that contain the reserved placeholder words of the implementation themselves',
     'Existing tests check a fixed list of about fifty short texts.',
     ['preprocessing/tokenizer.py', 'preprocessing/sanitization.py'],
     [('placeholders for protected text, restored at the end', 'preprocessing/tokenizer.py: Tokenizer.__call__'),
      ('substitutions that only insert blanks', 'preprocessing/tokenizer.py')],
     ['tokens returned'],
     technique='runtime monitoring: character-conservation checker over tokenized hostile text',
     note='Alignment oracle independent of the rules; inputs include constants and regex samples mined from the sources.')

prop('C07', 'Text that must not be cut stays one token',
     'In any context of words, these stay single tokens, however many there are and however often they repeat: URLs and domains with a path, '
     'dotted acronyms and names, initials, titles such as "Mr." before a name, abbreviations whose dot is followed by a lower-case word, a number or other punctuation, decimals and numbers with thousands commas, times, '
     'percentages, e-mail addresses, hashtags, hyphenated words, comparators (>= <= => =<, also when spaced), smileys, shortened "and" (\'n\'), feet-inches measures, ampersand acronyms and punctuation runs.',
     ['inputs'],
     'all instances of these classes, all positions, any number and repetition in one text',
     'Existing tests contain one or two instances of each class, one per text.',
     ['preprocessing/tokenizer.py'],
     [('__re_protect', 'preprocessing/tokenizer.py'), ('__re_no_split', 'preprocessing/tokenizer.py'),
      ('__re_token_nosplit_dot', 'preprocessing/tokenizer.py'), ('__re_reattach', 'preprocessing/tokenizer.py')],
     ['tokens returned'],
     technique='runtime monitoring: constructive oracle (texts assembled from units with known tokens)',
     note='Exact expected token lists; grammar of 20 unit classes.')

prop('C08', 'Punctuation, clitics and joined words are cut into separate tokens',
     'In any context of words, these are cut off as tokens of their own: sentence enders and their runs, commas not inside numbers, semicolons, brackets, quotes, bars, equal signs, colons after words, '
     'slashes, pluses, stars, ampersands and percent signs between letters, angle brackets, dashes, bullets; "cannot" becomes can + not and the clitics n\'t \'re \'ll \'ve \'m \'d \'s are separated from '
     'their word. Nothing else is cut: plain words stay whole.',
     ['inputs'],
     'all instances of these classes, all positions, any number and repetition in one text',
     'Existing tests contain one or two instances of each class, one per text.',
     ['preprocessing/tokenizer.py'],
     [('__re_always_split', 'preprocessing/tokenizer.py'), ('__re_segment_off', 'preprocessing/tokenizer.py'),
      ('__re_token_split_dot', 'preprocessing/tokenizer.py')],
     ['tokens returned'],
     technique='runtime monitoring: constructive oracle (texts assembled from units with known tokens)',
     note='Exact expected token lists; grammar of 21 unit classes mixed with the whole units.')

prop('C09', 'Sentence splitting is total and conserves the text',
     'For every text, splitting into sentences succeeds, and the tokens of all sentences in order spell the text without its blanks (same normalisations '
     'as the tokenizer). No sentence and no token is empty, and no internal marker ever appears in a token, whatever the nesting or imbalance of quotes and brackets.',
     ['inputs'],
     'all Unicode texts, except texts that contain the pilcrow sign or a complete internal block marker numbered like one of their own quotations or brackets',
     'One existing test on one text.',
     ['preprocessing/sentencizer.py', 'preprocessing/sanitization.py'],
     [('quotes and brackets set aside as blocks and put back', 'preprocessing/sentencizer.py: Sentencizer.__call__')],
     ['sentences returned'],
     technique='runtime monitoring: character-conservation checker over sentences of hostile text',
     note='Alignment oracle independent of the rules.')

prop('C10', 'Sentences end exactly at top-level enders, line breaks and closing quotes',
     'A sentence ends after every token made only of . ? ! : that is outside quotation marks and parentheses, at every line break or tab, and after a quotation '
     'whose last character is a period, when that quotation is not inside parentheses; it ends nowhere else. Enders inside quotation marks or parentheses never cut a sentence. A sentence splitter built with a custom tokenizer '
     'uses that tokenizer.',
     ['inputs', 'configurations'],
     'all texts assembled from words, tokenizer units, quotations, brackets and enders; default and custom tokenizers',
     'One existing test on one text.',
     ['preprocessing/sentencizer.py'],
     [('__split_sentences, __find_blocks', 'preprocessing/sentencizer.py')],
     ['sentences returned'],
     technique='runtime monitoring: constructive oracle (texts assembled from sentences with known tokens)',
     note='Exact expected sentences.')

# LANGUAGE MODEL ----------------------------------------------------------------------------------------------------

prop('C11', 'N-grams are extracted within sentences and counted exactly',
     'Building a language model counts, for every order, each occurrence of consecutive tokens of one sentence that are all made of letters and start with a lower-case letter '
     '(the word "I" is also accepted), in lower case. N-grams never span two sentences or skip a token, every text of the source is counted exactly once, and the counts do not depend on the number of processes.',
     ['inputs', 'configurations'],
     'all corpora (empty texts included), all orders, all numbers of processes, corpora of any number of texts relative to the processes',
     'Existing tests count n-grams of one fixed corpus only indirectly.',
     ['langmodel/ngrams_extraction.py', 'langmodel/ngram_store.py', 'langmodel/language_model_builder.py'],
     [('extract_ngrams', 'langmodel/ngrams_extraction.py'), ('NgramStore.make_ngram', 'langmodel/ngram_store.py'),
      ('batches of texts over a process pool', 'langmodel/language_model_builder.py: LanguageModelBuilder.__call__')],
     ['counts in the model files', 'n-grams extracted'],
     technique='runtime monitoring: reference-model monitor (naive counter) of extraction and of built model files',
     note='Built with real process pools; counts compared with a naive recount.')

prop('C12', 'Modified Kneser-Ney probabilities follow the estimator exactly',
     'The probability of every n-gram equals the interpolated modified Kneser-Ney estimate computed from the counts: unigrams by continuation over distinct bigrams, higher orders '
     'by discounted counts (discounts from the numbers of n-grams seen one to four times) plus the weighted lower-order estimate, lower orders using continuation counts. It does not depend on the number of processes or on the order of the n-grams; a corpus lacking n-grams '
     'of count one, two, three or four at an order above one is refused.',
     ['inputs', 'configurations'],
     'all corpora rich enough, all maximal orders, all numbers of processes',
     'One corpus with nb_processes fixed in the existing test.',
     ['langmodel/mkn_smoother.py', 'langmodel/smoother.py', 'langmodel/ngram.py'],
     [('_prepare_mkn, __mkn_pack, _calc_proba_recursive', 'langmodel/mkn_smoother.py'), ('slices per process', 'langmodel/smoother.py')],
     ['probability of each n-gram'],
     technique='runtime monitoring: reference-model monitor (exact rational recomputation)',
     note='Reference in exact rational arithmetic, compared within 1e-9 relative error.')

prop('C13', 'Maximum-likelihood probabilities are count over total',
     'With maximum-likelihood estimation the probability of every n-gram is its count divided by the total count of its order, for each order up to the '
     'maximum; orders without n-grams are empty. The result does not depend on the number of processes.',
     ['inputs', 'configurations'],
     'all corpora (too short for some orders included), all maximal orders, all numbers of processes',
     'Not covered by any existing test.',
     ['langmodel/mle_smoother.py', 'langmodel/smoother.py'],
     [('MLESmoother.__call__', 'langmodel/mle_smoother.py')],
     ['probability of each n-gram'],
     technique='runtime monitoring: reference-model monitor and conservation (probabilities of an order sum to one)',
     note='Exact recomputation.')

prop('C14', 'Model files hold every n-gram faithfully and load back',
     'A built model has one file per order with one line per n-gram of positive probability: text, count, probability, in decreasing order of probability. Loading it '
     'gives exactly the n-grams whose count reaches the minimum given for their order, with the same counts and probabilities; only the orders asked for are loaded.',
     ['inputs', 'configurations'],
     'all corpora, orders, smoothing methods, and all minimum counts',
     'The language model tests need a bigram file that is not in the repository.',
     ['langmodel/language_model_builder.py', 'langmodel/language_model.py', 'utils/files.py'],
     [('__write_ngram_file', 'langmodel/language_model_builder.py'), ('LanguageModel.__init__', 'langmodel/language_model.py')],
     ['model files', 'queries on the loaded model'],
     technique='runtime monitoring: offline checker over the written files, round trip through the loader',
     note='Files are parsed independently; loaded model queried for every n-gram.')

prop('C15', 'Language model queries answer from the loaded n-grams',
     'Membership with a minimum count, size, the n-grams of an order by decreasing probability, the next words of the longest known context by decreasing probability, '
     'and the best n-gram or best token among candidates are the ones the loaded n-grams define. The best token has the most probable n-gram of the highest order containing it in its context, lower orders deciding ties, and no answer is given when no candidate is known.',
     ['inputs', 'histories'],
     'all models, orders and minimum counts, all candidates and contexts (missing, shorter and longer than the order), all limits',
     'The language model tests need a bigram file that is not in the repository; the context test covers one length.',
     ['langmodel/language_model.py', 'langmodel/token_context.py'],
     [('LanguageModel queries', 'langmodel/language_model.py'), ('candidates(order)', 'langmodel/token_context.py')],
     ['answers of the queries'],
     technique='runtime monitoring: reference-model monitor (naive scan of the n-grams)',
     note='Set-valued oracle where probabilities tie.')

prop('C16', 'A failed model build leaves the existing model untouched',
     'If a build fails because the text source raises at any point or the data is too poor for the smoothing method, the error is raised and the existing model files are '
     'byte for byte unchanged. An unknown smoothing method, or Kneser-Ney with a maximal order below two, is rejected at construction.',
     ['fault_sequences', 'crash_points', 'configurations'],
     'every position of the failing text, every order, both smoothing methods, any number of processes',
     'One existing test checks one invalid argument.',
     ['langmodel/language_model_builder.py', 'langmodel/mkn_smoother.py', 'exceptions.py'],
     [('files are written after everything is computed', 'langmodel/language_model_builder.py: LanguageModelBuilder.__call__')],
     ['exception raised', 'bytes of the files in the model directory'],
     level='fault_enumeration',
     technique='runtime monitoring with fault injection: directory snapshots before and after failing builds',
     note='The failing position is enumerated; not covered: failures of the file system while the files are being written.')

# NORMALIZATION -----------------------------------------------------------------------------------------------------

prop('C17', 'Lemmas come from the irregular tables, then from supported endings',
     'The lemma of a word for its part of speech is the one of the special forms and irregular tables if listed (also behind a known or hyphenated prefix), otherwise the candidate obtained by undoing the first applicable ending of that part of speech that the language model supports best '
     '(verbs judged after pronouns and modals), otherwise the word itself in lower case. The inflection reported (third person, past, progressive, plural, comparative, superlative or none) is the one undone.',
     ['inputs', 'configurations'],
     'all words, all tags, all language models',
     'The lemmatizer tests need a bigram file that is not in the repository, and sample a fixed list of words.',
     ['normalization/lemmatizer.py', 'normalization/suffixes.py', 'utils/text.py'],
     [('Lemmatizer.__call__, __best_candidate, __irregular_lemma', 'normalization/lemmatizer.py')],
     ['lemma and inflection returned'],
     technique='runtime monitoring: reference-model monitor (table-driven lemmatizer) over random language models',
     note='Reference model written as an ordered rule table; set-valued on ties of the language model.')

prop('C18', 'Spelling is standardised to the variant the language model prefers',
     'A word the language model has seen at least five times is never changed. Otherwise British/American variants (our/or, ise/ize, yse/yze, ce/se, ogue/og, ll/l, ae/e, oe/e) are replaced by the variant the model finds more '
     'probable, keeping the inflection; a word with no known variant is returned unchanged.',
     ['inputs', 'configurations'],
     'all words, all language models',
     'The standardizer tests need a bigram file that is not in the repository, and sample a fixed list of words.',
     ['normalization/standardizer.py'],
     [('Standardizer.__call__', 'normalization/standardizer.py')],
     ['word returned'],
     technique='runtime monitoring: reference-model monitor over random language models',
     note='Reference model written as a rule table without regular expressions.')

prop('C19', 'Past participles follow the irregular table and the spelling rules',
     'The past participle of a verb is the one of the irregular table if listed. Otherwise consonant+ie and consonant+e take d, consonant+y becomes ied, a final vowel+consonant is doubled or not according to the language model, and every other verb takes ed.',
     ['inputs', 'configurations'],
     'all lemmas (also one or two letters long), all language models',
     'The inflector tests need a bigram file that is not in the repository, and sample a fixed list of words.',
     ['normalization/inflector.py'],
     [('Inflector.past_participle', 'normalization/inflector.py')],
     ['participle returned'],
     technique='runtime monitoring: reference-model monitor over random language models',
     note='Reference model; set-valued on ties.')

# SYNTAX ------------------------------------------------------------------------------------------------------------

prop('C20', 'Sentence encoding is faithful, padded and aligned',
     'Encoding a sentence gives its length plus two boundary tokens, one row of character codes per token (start mark, the last 20 characters, end mark, then zeros; unknown characters share one '
     'extra code) and one vector per token (case-insensitive, zeros when unknown), padded with zeros to the fixed size. Position masks select exactly the two positions asked for.',
     ['inputs'],
     'all sentences of 0 to 50 tokens, words of any length and alphabet, all positions',
     'Not covered by any existing test.',
     ['syntax/training_samples.py', 'syntax/charset.py', 'syntax/wordset.py'],
     [('vectorize_sentence, make_masks', 'syntax/training_samples.py')],
     ['arrays returned', 'arrays the model oracles receive'],
     technique='runtime monitoring: reference encoder compared with returned arrays and with the arrays reaching the models',
     note='Exact comparison of every cell.')

prop('C21', 'Gold transitions replayed by the parser rebuild the annotated tree',
     'For every annotated sentence whose dependency tree is projective, the transitions derived from the annotation, when predicted to the parser, rebuild exactly the annotated tree: same root, same '
     'parent and same label for every token, tokens without dependency left out. Tags come out aligned with the tokens.',
     ['inputs'],
     'all projective trees over any subset of the tokens (at least two tokens in the tree), any labels and tags, any batching',
     'Existing tests derive transitions for a handful of sentences and never replay them.',
     ['syntax/labelled_data.py', 'syntax/parser.py', 'syntax/transitions.py', 'syntax/tagger.py'],
     [('LabelledSentence.transitions', 'syntax/labelled_data.py'), ('arc-eager transition system', 'syntax/parser.py: _Parse')],
     ['tags and trees returned by the parser', 'tags returned by the tagger'],
     technique='runtime monitoring: round-trip checker (oracle transitions replayed through the real parser)',
     note='Random projective trees; the transition model is an oracle answering with the gold transition of the configuration asked about.')

prop('C22', 'Whatever the models predict, parsing ends with a well-formed forest',
     'For any predicted tags, dependencies and transitions, parsing a batch ends after at most twice as many predictions per sentence as it has tokens, and each prediction is asked about the '
     'sentence\'s own current pair of positions. Every token gets at most one parent, there is no cycle, tokens predicted without dependency are left out of the tree, and labels are the predicted ones. The root is the first token that has dependents but no parent, and there is no tree when nothing is attached.',
     ['inputs', 'histories'],
     'all sequences of predictions, all sentence lengths, any batch composition',
     'Not covered by any existing test.',
     ['syntax/parser.py', 'utils/tree.py'],
     [('_Parse.register_transition, _build_tree', 'syntax/parser.py'), ('Parser.__call__', 'syntax/parser.py')],
     ['trees returned', 'prediction requests'],
     technique='runtime monitoring: online trace checker of prediction requests against an arc-eager automaton, structural invariants on the trees',
     note='Adversarial random model oracles.')

prop('C23', 'Tree queries agree with the registered arcs',
     'After any sequence of child registrations, the tree reports exactly those arcs: parents, children (all, by label, by label set), siblings, ancestors and descendants along a label, membership, size, nodes and '
     'iteration over arcs are mutually consistent, and queries never change the tree.',
     ['inputs', 'histories'],
     'all trees, labels and query orders',
     'Existing tests only touch the tree through other components.',
     ['utils/tree.py', 'utils/mutables.py'],
     [('children and parents maps', 'utils/tree.py: Tree')],
     ['answers of the queries'],
     technique='runtime monitoring: reference-model monitor (edge list) over random operation histories',
     note='Every query on every node after every history.')

prop('C24', 'Training data pairs every input with its own labels',
     'Extraction of training data for tags, dependencies and transitions yields exactly one sample per sentence (per transition of each sentence for transitions), '
     'each with the encoding of that sentence, its own tags, dependencies, position masks and target, whatever the order of the samples.',
     ['inputs'],
     'all sets of annotated sentences, any shuffle',
     'Not covered by any existing test.',
     ['syntax/labelled_data.py', 'syntax/training_samples.py'],
     [('extract_ptags/pdeps/trans_training_data', 'syntax/labelled_data.py')],
     ['arrays returned'],
     technique='runtime monitoring: multiset conservation checker over uniquely identifiable sentences',
     note='Samples are matched by content, order ignored.')

# SEMANTICS ---------------------------------------------------------------------------------------------------------

prop('C25', 'Every subject, object and recipient yields its predicate tuple',
     'A verb yields one tuple per subject and object (noun-T-noun), per subject and recipient (noun-R-noun), or per subject alone when it has no object (noun-I; not for be, have, get, do). '
     'Conjunctions distribute: conjoined subjects, objects and verbs sharing them yield every combination exactly once, and nothing else; verbs in "to" form or with a complement property yield none.',
     ['inputs'],
     'all annotated clauses: any number of subjects, objects, recipients, conjunctions, long-distance complements',
     'The semantic tests need a bigram file that is not in the repository, and sample thirty sentences.',
     ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py'],
     [('__make_stuples_from_subjs_objs, __make_stuples_from_iobj', 'semantics/semantic_tuple_extractor.py'),
      ('_register_subjs, _register_objs', 'syntax/arg_finder.py')],
     ['semantic tuples returned'],
     technique='runtime monitoring: reference-model monitor of extracted tuples over a clause grammar',
     note='Reference semantics written from the documentation and the annotated examples; polarity is left to C28.')

prop('C26', 'Clause objects yield quadruples and quintuples, greedily',
     'When the object of a verb is itself a clause, the tuple is the longest one available: subject, verb, inner subject (the outer one when the clause has none), inner verb, plus inner object or property. '
     'A verb used this way yields no shorter predicate tuple of its own.',
     ['inputs'],
     'all annotated sentences with clause objects, with or without inner subject, object, property, conjunctions',
     'The semantic tests need a bigram file that is not in the repository, and sample thirty sentences.',
     ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py'],
     [('__make_stuples_from_verbs_subjs_objs', 'semantics/semantic_tuple_extractor.py')],
     ['semantic tuples returned'],
     technique='runtime monitoring: reference-model monitor of extracted tuples over a clause grammar',
     note='As C25.')

prop('C27', 'Attributes and copulas yield property tuples for their noun',
     'Adjectives attached to a noun, properties linked by a copula, naming complements ("call me Brandon") and properties of participles ("named Boyan Slat") each yield one noun-C-property tuple for '
     'every conjoined noun and property they apply to. A lone attribute tagged as noun (adjective) that the dictionary lists as adjective (noun) is treated as such.',
     ['inputs'],
     'all annotated sentences with attributes, copulas, comparisons, naming complements, conjunctions',
     'The semantic tests need a bigram file that is not in the repository, and sample thirty sentences.',
     ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'syntax/fixer.py'],
     [('__make_stuples_from_naked_adjs, __make_stuples_from_copula_props, __make_stuples_from_iprops, __make_stuples_from_pp_props',
       'semantics/semantic_tuple_extractor.py'), ('Fixer', 'syntax/fixer.py')],
     ['semantic tuples returned'],
     technique='runtime monitoring: reference-model monitor of extracted tuples over a clause grammar',
     note='As C25.')

prop('C28', 'A tuple is negative exactly when an odd number of its parts is negated',
     'Negation is reported on the verb of the tuple only, and only when an odd number of the words the tuple is built from (subjects, verbs, objects, properties) carry a negation; two negations cancel out. '
     'In the passive noun-be-participle tuple the subjects of the verb count together, as negated only if all of them are; the negation of a copula counts as the one of the verb in the tuples of its properties.',
     ['inputs'],
     'all placements and numbers of negations on all kinds of tuples',
     'The semantic tests need a bigram file that is not in the repository, and have four negations.',
     ['semantics/semantic_tuple_extractor.py', 'utils/maths.py', 'syntax/arg_finder.py'],
     [('xnor over the parts', 'utils/maths.py'), ('is_aff from NEG children', 'syntax/arg_finder.py: ArgFinder.__call__')],
     ['is_affirmative of every argument'],
     technique='runtime monitoring: reference-model monitor (parity) and flip-one-negation metamorphic monitor',
     note='Polarity compared on tuples whose wording agrees with the reference.')

prop('C29', 'Active and passive forms are converted into each other',
     'Each object of a transitive verb also yields the passive noun-be-participle tuple (particles kept; not for have and get), and a passive participle with an agent introduced by "by" yields the active agent-verb-noun tuple; '
     'a participle is coded as such, other adjectives are not.',
     ['inputs'],
     'all annotated sentences with objects, participles, particles, agents, conjunctions',
     'The semantic tests need a bigram file that is not in the repository, and sample thirty sentences.',
     ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'normalization/canonicalizer.py', 'normalization/inflector.py'],
     [('__make_stuples_from_objs, active forms', 'semantics/semantic_tuple_extractor.py'), ('_register_agents', 'syntax/arg_finder.py'),
      ('active_verb', 'normalization/canonicalizer.py')],
     ['semantic tuples returned'],
     technique='runtime monitoring: reference-model monitor of extracted tuples over a clause grammar',
     note='As C25.')

prop('C30', 'Arguments are worded canonically: lemmas, chunks, names, particles',
     'The word of an argument is the lower-case lemma; common-noun compounds are one argument in sentence order when chunking is on and only their head noun when it is off; flat names are joined; verb particles follow their verb, infinitive "to" is not part of it; '
     'object pronouns take their subject form. Codes follow the part of speech.',
     ['inputs', 'configurations'],
     'all compounds (any depth), names, particles, pronouns; chunking on and off',
     'The semantic tests need a bigram file that is not in the repository, and sample thirty sentences.',
     ['syntax/chunker.py', 'syntax/nodifier.py', 'normalization/canonicalizer.py'],
     [('_chunk', 'syntax/chunker.py'), ('flat names, particles', 'syntax/nodifier.py'), ('canonical forms', 'normalization/canonicalizer.py')],
     ['words and codes of arguments'],
     technique='runtime monitoring: reference-model monitor of argument wording over a clause grammar',
     note='As C25, with chunking on and off through the full pipeline.')

prop('C31', 'Relative and reflexive pronouns are replaced by what they refer to',
     'In a relative clause without marker attached to a noun, "that", "which" and "who" as subject or object stand for that noun (and its conjuncts), and a relative clause with a subject but no object takes the noun as object. '
     'A reflexive pronoun object stands for the subject of its verb; a reflexive subject of a clause object stands for the subject of the outer verb.',
     ['inputs'],
     'all annotated sentences with relative clauses and reflexive pronouns, with conjunctions and negations',
     'The semantic tests need a bigram file that is not in the repository, and have a few such sentences.',
     ['syntax/arg_finder.py'],
     [('__resolve_relative_pron, __resolve_obj_reflexive_pron, __resolve_subj_reflexive_pron', 'syntax/arg_finder.py')],
     ['semantic tuples returned'],
     technique='runtime monitoring: reference-model monitor of extracted tuples over a clause grammar',
     note='As C25.')

prop('C32', 'Any labelled tree is analysed, giving only documented tuple shapes',
     'For every labelled sentence, however odd its tree, extraction succeeds and every tuple has one of the documented shapes (noun codes N P O S U around I, T, R, C verbs; A or L properties), every argument being '
     'built from words of that sentence. The multiset of tuples is the one the extraction rules define and does not depend on the run.',
     ['inputs'],
     'all trees, labels and tags (flat names being left-to-right chains), with 0 to 50 tokens',
     'The semantic tests need a bigram file that is not in the repository, and sample thirty well-formed sentences.',
     ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'syntax/nodifier.py', 'syntax/chunker.py', 'syntax/fixer.py'],
     [('LogicPipeline', 'pipeline/logic_pipeline.py')],
     ['semantic tuples returned'],
     technique='runtime monitoring: shape invariants and reference-model monitor over arbitrary labelled trees',
     note='Random trees, mutated annotated sentences, and exhaustive small trees in the thorough tier.')

prop('C33', 'Result objects report their content consistently',
     'A document iterates over its sentences and lists their tuples in order; a tuple\'s length, iteration, indexed arguments, code, code search and text agree with its arguments; an argument\'s text shows NOT exactly '
     'when it is negative and decorators are asked for, its tag is the documented one for its code, and unknown codes are rejected.',
     ['inputs'],
     'all argument words, codes and polarities, all tuple lengths, all documents',
     'Existing tests only compare printed tuples, and cannot run here.',
     ['semantics/argument.py', 'semantics/semantic_tuple.py', 'pipeline/document.py', 'pipeline/sentence.py'],
     [('Argument, SemanticTuple, Document, Sentence', 'semantics/argument.py')],
     ['public methods of the objects'],
     technique='runtime monitoring: contract checker on result objects, built directly and returned by the pipeline',
     note='The tag of copula arguments is left out (documentation and tutorial differ).')

prop('C34', 'Vocabularies and tables are read back as they were written',
     'Character codes and word vectors saved are read back identical: known characters have distinct codes, all unknown ones one other code, vectors are kept for exactly the words the language model knows and looked up case-insensitively. '
     'Word lists and tab-separated tables load as exactly the lines they contain, in UTF-8.',
     ['inputs'],
     'all vocabularies, vectors, lists and tables, any alphabet',
     'Not covered by any existing test.',
     ['syntax/charset.py', 'syntax/wordset.py', 'utils/files.py'],
     [('Charset, Wordset', 'syntax/charset.py'), ('loaders and writers', 'utils/files.py')],
     ['objects read back', 'files written'],
     technique='runtime monitoring: round-trip monitor against an in-memory model',
     note='Scratch data directory.')

prop('C35', 'Parallel map and batching are order-preserving partitions',
     'Mapping a function over items with any number of threads calls it exactly once per item and returns the results in the order of the items. Dividing a list or making batches gives consecutive, '
     'non-overlapping pieces whose concatenation is the list, balanced within one item, batches full except the last.',
     ['inputs', 'schedules', 'configurations'],
     'all list lengths and numbers of pieces, all thread schedules and delays',
     'Not covered by any existing test.',
     ['utils/multithreading.py', 'utils/mutables.py', 'langmodel/smoother.py'],
     [('run_multithreads', 'utils/multithreading.py'), ('divide_list, make_batches', 'utils/mutables.py')],
     ['calls of the function', 'results'],
     technique='runtime monitoring: exactly-once/ordering checker over recorded call histories under a controlled thread scheduler',
     note='Small sizes enumerated exhaustively, larger ones sampled.')

prop('C36', 'Networks are trained, asked and read consistently',
     'Each of the three models receives, in training and in prediction, the same arrays in the order and shapes of its declared inputs, all of which its answer depends on, with codes inside its embeddings and exactly '
     'one output per class. The class read at every position of every item is the most probable one. Learning passes the given options and labels, keeps the best weights by (validation) accuracy and returns that accuracy in percent. '
     'Weights are loaded from where a model of the same kind saved them, and loading weights that were never saved fails.',
     ['inputs', 'histories', 'configurations'],
     'all training sets, batches, probability tables, training options and histories of saves and loads',
     'Not covered by any existing test; the models are never built by the tests that run.',
     ['syntax/models.py', 'syntax/training_samples.py', 'syntax/labelled_data.py'],
     [('PTagsModel, PDepsModel, TransModel', 'syntax/models.py'), ('training_mats', 'syntax/training_samples.py')],
     ['arrays given to the networks', 'classes returned', 'files of weights'],
     technique='runtime monitoring: recorder at the boundary of the networks (symbolic layers), contract checker on recorded calls',
     note='tensorflow is a symbolic stand-in (the installed version cannot build the transition model at all); what the layers compute is not observed, only what they are connected to.')

prop('C37', 'Annotated sentences report their annotation',
     'An annotated sentence with a root gives its tokens, tags, dependencies, length, items, text, attached tokens and tree exactly as annotated; a token is a leaf exactly when nothing depends on it; two arcs are reported as crossing exactly '
     'when one end of the second lies strictly inside the first and the other strictly outside; warnings come out per token in the order of their registration, and none means no report.',
     ['inputs', 'histories'],
     'all annotated trees (projective or not), all pairs of tokens, all sequences of warnings',
     'Existing tests try a handful of sentences and four pairs of arcs.',
     ['syntax/labelled_data.py', 'utils/tree.py'],
     [('LabelledSentence', 'syntax/labelled_data.py')],
     ['public methods of the sentence'],
     technique='runtime monitoring: contract checker against the plain annotation',
     note='Sentences without a ROOT token are outside.')

prop('C38', 'Marked texts can be taken apart again',
     'A function mark, an association of two words and a token with attributes, written from parts that do not contain the marks between parts (a closing bracket is none), give back exactly these parts (absent ones left out); what is not a pair is not taken apart.',
     ['inputs'],
     'all names, words and attributes without the marks that separate parts',
     'Not covered by any existing test.',
     ['utils/text.py'],
     [('functionalize, associate, attach_attributes and their inverses', 'utils/text.py')],
     ['texts and parts'],
     technique='runtime monitoring: round-trip monitor',
     note='Helpers of the package that its pipeline does not use yet.')

prop('C39', 'Reported times add up to the time that passed',
     'A lap is reported as the time since the construction of the timer or since its report before, a total as the time since the construction, both as hours, minutes and seconds, whatever the sequence of reports and however '
     'long they are; timers do not influence each other.',
     ['inputs', 'histories'],
     'all sequences of reports and all durations',
     'Not covered by any existing test.',
     ['utils/timer.py'],
     [('Timer.lap_time, Timer.total_time', 'utils/timer.py')],
     ['reported texts under a controlled clock'],
     technique='runtime monitoring: online monitor of reports under a virtual clock')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps(p['row'], ensure_ascii=False) + '\n')
    checks, missing = [], []
    for p in P:
        pid = p['row']['id']
        if not os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')):
            missing.append({'property': pid, 'reason': 'check not built yet'})
            continue
        checks.append({'property': pid, 'quick_cmd': '%s run.py %s --tier quick' % (PY, pid),
                       'thorough_cmd': '%s run.py %s --tier thorough' % (PY, pid),
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': p['technique'], 'level': p['level'],
                       'level_note': p['note']})
    manifest = {'version': 1, 'setup_cmd': '%s -c "import numpy, sys; assert sys.version_info >= (3, 12)"' % PY,
                'checks': checks, 'not_applicable': missing,
                'notes': 'No hooks in /repo: the checks observe the code through its public interfaces, a stand-in for tensorflow and '
                         'a scratch data directory. See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, ensure_ascii=False, indent=1)
        f.write('\n')


main()
