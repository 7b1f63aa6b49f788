"""The properties: text, anchors, and the functions whose effects decide them."""

# id: title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], observe
P = {}


def prop(id, title, statement, over, text, why, files, mech, fns, observe=()):
    assert len(title) <= 80, title
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                 fns=fns, observe=list(observe))


TESTS = 'The suite trains and evaluates a handful of models from one small corpus through the command-line tools; '

prop('C01', 'Asking a model for a probability never changes the model',
     'Looking up probabilities or counts in a loaded or partly built model leaves everything a later lookup can see unchanged: '
     'no entry is created, removed or altered, whatever n-gram is asked for and in whatever order. '
     'Only bookkeeping about the last lookup (its order, its path) may change.',
     ['histories', 'inputs'], 'every sequence of lookups on every model, for seen, unseen, too long and out-of-vocabulary n-grams',
     TESTS + 'no test asks twice and compares, and an insertion on lookup only shows in files written or in counts used afterwards.',
     ['src/TreeGram.cc', 'src/HashGram_tmpl.hh', 'src/InterTreeGram.cc', 'src/sparse_matrix.c', 'src/sikMatrix.hh', 'src/MultiOrderCounts_tmpl.hh', 'src/InterKn_tmpl.hh'],
     [('lookup without creation', 'src/sparse_matrix.c:FindEntry'), ('typed lookup', 'src/sikMatrix.hh:getvalue'),
      ('model queries', 'src/TreeGram.cc:log_prob_bo, log_prob_i; src/HashGram_tmpl.hh:log_prob_bo_helper, log_prob_i_helper'),
      ('count queries', 'src/MultiOrderCounts_tmpl.hh:GetCount, GetBackoff, GetBackoffDen, GetBackoffNzer_1nzer')],
     '''FindEntry GetValue[DFI] sikMatrix::getvalue sikMatrix::num_entries MultiOrderCounts.*::GetCount MultiOrderCounts.*::GetBackoff.*
     HashGram_t::log_prob.* TreeGram::log_prob.* TreeGram::find_path TreeGram::find_child TreeGram::binary_search TreeGram::fetch_gram
     InterTreeGram::log_prob.* NGram::log_prob InterKn.*::kn_prob InterKn.*::kn_coeff.* InterKn_t::tableprob'''.split(),
     ['a model written after any lookups is the model written before them'])

prop('C02', 'The count tables return exactly what was last stored for each n-gram',
     'After any sequence of stores, increments and removals, asking a table for an n-gram gives the value last stored or accumulated for exactly that n-gram, '
     'or the table\'s default value if it is absent; other n-grams are unaffected. '
     'An entry whose value becomes the default is removed, and the number of entries reported is the number of n-grams held.',
     ['histories', 'inputs'], 'every sequence of table operations, every table size and fill, every colliding set of keys',
     TESTS + 'collisions, removal of arbitrary entries, growth of a table and entries returning to the default are reached only by chance.',
     ['src/sparse_matrix.c', 'src/sparse_matrix.h', 'src/sparse_matrix_pinline.h', 'src/sikMatrix.hh'],
     [('lookup and insertion', 'src/sparse_matrix.c:FindEntry, NewEntry'), ('removal', 'src/sparse_matrix.c:RemoveEntryIdx, RemoveDefaultValues'),
      ('sorted search order', 'src/sparse_matrix_pinline.h:qindcmp'), ('typed access', 'src/sikMatrix.hh')],
     '''FindEntry NewEntry RemoveEntryIdx ClearMatrix CreateMatrix[DFI]? DeleteMatrix Increment[FI] SetValue[DFI] GetValue[DFI] RemoveDefaultValues
     qindcmp CheckConsistency sikMatrix::(Idx2.*|clear|getvalue|increment.*|num_entries|setvalue|sikMatrix|~sikMatrix) check_malloc'''.split(),
     ['values read back', 'entry counts'])

prop('C03', 'A table walk visits every n-gram once, even when the current one is removed',
     'A walk over the entries of a table or of one order of a model or count set yields every entry exactly once with its own key and value and then ends, and the ordered walk yields them in increasing key order. '
     'Removing the entry just visited neither skips nor repeats any other entry. '
     'A new walk starts from the beginning, regardless of how an earlier one ended.',
     ['histories', 'inputs'], 'every table content, with and without removal of the current entry during the walk',
     TESTS + 'a skipped or repeated entry only perturbs counts slightly and no test compares a walk with the content.',
     ['src/sparse_matrix.c', 'src/sikMatrix.hh', 'src/MultiOrderCounts_tmpl.hh'],
     [('walks', 'src/sparse_matrix.c:StepThrough, OrderedStepThrough, DeleteCurrentST'), ('typed walks', 'src/sikMatrix.hh:stepthrough, ordered_stepthrough'),
      ('per order walks', 'src/MultiOrderCounts_tmpl.hh:StepCountsOrder, StepBackoffsOrder, NextVector')],
     '''StepThrough OrderedStepThrough DeleteCurrentST qindcmp RemoveEntryIdx ClearMatrix RemoveDefaultValues sikMatrix::(stepthrough|ordered_stepthrough|delete_current_st|Idx2.*)
     MultiOrderCounts.*::(StepCountsOrder|StepBackoffsOrder|DeleteCurrentST|NextVector|RemoveDefaultBackoffs)
     InterKn_t::(MocNextVector|MocOrderSize|num_grams)'''.split())

prop('C04', 'Undoing a trial change restores the counts exactly',
     'While model growing tries out an n-gram, every change it makes to counts and back-off statistics is remembered, and undoing the trial brings every one of them back to its value before the trial. '
     'Accepting a trial keeps the changes and forgets them, so that a later undo cannot revert them.',
     ['histories', 'inputs'], 'every sequence of cached increments, acceptances and undos, over all orders and history contexts',
     TESTS + 'growing is run on one corpus only and a leak of a trial shows as slightly wrong counts that no test inspects.',
     ['src/MultiOrderCounts_tmpl.hh', 'src/MultiOrderCounts.hh', 'src/VarigramFuncs_tmpl.hh', 'src/InterKn_tmpl.hh'],
     [('recording', 'src/MultiOrderCounts_tmpl.hh:IncrementCountCache, IncrementBackoffCache, IncrementBackoffCacheDen, IncrementBackoffCacheNzer_1nzer, IncrementBackoffCacheNzer_3nzer'),
      ('undo and accept', 'src/MultiOrderCounts_tmpl.hh:UndoCached, ResetCaches'), ('trial', 'src/VarigramFuncs_tmpl.hh:modify_model, reestimate_with_history')],
     '''MultiOrderCounts.*::(IncrementCountCache|IncrementBackoffCache.*|ResetCaches|UndoCached|RemoveOrder|IncrementCount|Increment_wo_del|IncrementBackoff.*)
     MultiOrderCounts_counter_types::.* InterKn_t::(MocResetCaches|MocUndoCached) Varigram_t::(modify_model|reestimate_with_history)
     InterKn_t::prune_model_fbase InterKn_int_disc3?::(prune_gram|prune_model) sikMatrix::increment.* Increment[FI]'''.split())

prop('C05', 'Back-off denominators and type counts always agree with the n-gram counts',
     'For every history context the stored denominator equals the sum of the counts of the n-grams extending it, those pruned from it included as long as others remain, and the stored type counts equal the number of the remaining ones in each count class. '
     'This holds after estimation from counts and after each n-gram added, changed, pruned or moved to a lower order.',
     ['histories', 'inputs'], 'every set of counts and every sequence of additions and prunings',
     TESTS + 'a drift of a denominator shifts probabilities slightly; the loose perplexity bounds of the tests do not see it, and pruning orders are data dependent.',
     ['src/InterKn_tmpl.hh', 'src/MultiOrderCounts_tmpl.hh', 'src/MultiOrderCounts.hh'],
     [('estimation', 'src/InterKn_tmpl.hh:estimate_bo_counts, estimate_bo_counts_absolute_discounting, estimate_nzer_counts'),
      ('update on pruning', 'src/InterKn_tmpl.hh:prune_gram, remove_sent_start_prob_fbase'),
      ('increments', 'src/MultiOrderCounts_tmpl.hh:IncrementBackoffDen, IncrementBackoffNzer_1nzer, IncrementBackoffNzer_3nzer')],
     '''InterKn_t::(estimate_bo_counts.*|remove_sent_start_prob|remove_zeroprob_grams|prune_gram|prune_model_fbase|create_model)
     InterKn_int_disc3?::(estimate_nzer_counts|prune_gram|remove_sent_start_prob.*)
     MultiOrderCounts.*::(IncrementBackoff(Den|Nzer.*)?|clear_derived_counts|clear_nzer|clear_lden|zero_nz|zero_bo|GetBackoff.*|SetBackoff|RemoveOrder)
     MultiOrderCounts_counter_types::.*'''.split())

prop('C06', 'Discounts are set, bounded and stored per order as documented',
     'A discount vector given to the model is stored per order and, when three discounts are used, per count class, within the limits declared for the optimiser: never negative and never larger than the counts they discount. '
     'Reading the vector back gives the same numbers in the same order, and leave-one-out estimates follow from the numbers of n-grams seen one to four times.',
     ['inputs', 'configurations'], 'every discount vector, order and set of counts of counts',
     TESTS + 'the optimiser usually stays inside its limits and never meets degenerate counts of counts in the tests.',
     ['src/InterKn_tmpl.hh', 'src/InterKn.hh'],
     [('vector to discounts', 'src/InterKn_tmpl.hh:flatv2disc, disc2flatv'), ('limits', 'src/InterKn_tmpl.hh:initialize_minmax, find_coeffs'),
      ('leave-one-out', 'src/InterKn_tmpl.hh:calculate_leaveoneout_discounts, set_leaveoneout_discounts')],
     '''InterKn_int_disc3?::(flatv2disc|disc2flatv|set_leaveoneout_discounts|set_order|initialize_minmax|init_disc|InterKn_int_disc3?)
     InterKn_t::(calculate_leaveoneout_discounts|evaluate|find_coeffs) InterKn::(InterKn|set_treshold|re_estimate_needed)'''.split())

prop('C07', 'N-gram probabilities follow the interpolated Kneser-Ney definition',
     'Every probability a trained model gives is the discounted count of the n-gram divided by the denominator of its history, plus the interpolation weight of that history times the probability of the n-gram without its first word, down to the uniform distribution over the vocabulary. '
     'The weight is exactly the discounted mass divided by the same denominator, and without counts for the history the shorter n-gram\'s probability is used unchanged. '
     'The log-probability of a data set is the sum over its n-grams of these probabilities.',
     ['inputs', 'configurations'], 'every count set, discount setting, order and n-gram',
     TESTS + 'a wrong mass or denominator in a corner case changes a few probabilities only, inside the tolerance of the tests.',
     ['src/InterKn_tmpl.hh'],
     [('probability', 'src/InterKn_tmpl.hh:kn_prob, tableprob'), ('interpolation weight', 'src/InterKn_tmpl.hh:kn_coeff, kn_coeff_3nzer'),
      ('data log-probability', 'src/InterKn_tmpl.hh:logprob_datastorage, evaluate')],
     '''InterKn.*::(kn_prob|kn_coeff.*|tableprob|logprob_datastorage|evaluate) safelogprob2? MultiOrderCounts.*::GetBackoff.* MultiOrderCounts.*::GetCount
     Storage_t::fast_search_next'''.split())

prop('C08', 'Queries back off and interpolate over the longest stored suffix',
     'A back-off query returns the stored log-probability of the longest suffix of the n-gram that the model holds plus the back-off weights of the longer histories that it holds; an interpolated query adds the weighted contributions of all its suffixes. '
     'The order reported afterwards is the length of the longest suffix matched, and the hash based and tree based models give the same answer for the same stored n-grams.',
     ['inputs', 'histories'], 'every stored model and every queried n-gram, including unknown words and n-grams longer than the model',
     TESTS + 'only in-order n-grams from one text are queried, and only their sum is looked at.',
     ['src/TreeGram.cc', 'src/HashGram_tmpl.hh', 'src/NGram.hh', 'src/InterTreeGram.cc'],
     [('tree queries', 'src/TreeGram.cc:log_prob_bo, log_prob_i, fetch_gram, find_path, find_child, binary_search'),
      ('hash queries', 'src/HashGram_tmpl.hh:log_prob_bo_helper, log_prob_i_helper'), ('lists of successors', 'src/TreeGram.cc:fetch_bigram_list, fetch_trigram_list')],
     '''HashGram_t::(log_prob.*) TreeGram::(log_prob.*|find_path|find_child|binary_search|fetch_.*) InterTreeGram::(log_prob.*|fetch_.*) NGram::.*'''.split())

prop('C09', 'Mixing models uses the given weights, applied once, to each component',
     'An interpolated model\'s probability is the weighted sum of its components\' probabilities in linear space, each component with its own weight, and the weights add up to one. '
     'The words of all components are translated to each component\'s own vocabulary before it is asked.',
     ['configurations', 'inputs'], 'every set of models, weights and vocabularies',
     TESTS + 'at most one pair of models is mixed, so exchanged or complementary weights and differing vocabularies are not met.',
     ['src/InterTreeGram.cc', 'src/PerplexityFuncs.cc', 'app/perplexity.cc', 'app/simpleinterpolate2arpa.cc'],
     [('mixture', 'src/InterTreeGram.cc:InterTreeGram, log_prob_bo, log_prob_i'), ('perplexity mixture', 'src/PerplexityFuncs.cc:set_interpolation, logprob'),
      ('weights from the command line', 'app/simpleinterpolate2arpa.cc:component_models_and_weights')],
     '''InterTreeGram::.* Perplexity::(set_interpolation|logprob|Perplexity) component_models_and_weights main@simpleinterpolate2arpa{!open,close,parse,operator...,<indirect>} TreeGramArpaReader::write_interpolated
     HashGram_t::fake_interpolate'''.split())

prop('C10', 'Binary models are written and read field for field',
     'The reader of the binary model format reads exactly the fields the writer wrote, in the same order, sizes and byte order, so a model read back has the same vocabulary, type, order, node table and order counts on a machine of either byte order. '
     'A truncated file, or one whose counts, words or links contradict its tables, is refused rather than used.',
     ['inputs', 'configurations'], 'every model and vocabulary, either byte order, every truncation point',
     TESTS + 'one model is converted on one machine, and files are never cut short.',
     ['src/TreeGram.cc', 'src/Endian.cc', 'src/Vocabulary.cc', 'src/InterTreeGram.cc'],
     [('format', 'src/TreeGram.cc:write_real, read, flip_endian'), ('byte order', 'src/Endian.cc:convert, convert_buffer'), ('word list', 'src/Vocabulary.cc:read, write; src/TreeGram.cc:write_real')],
     '''TreeGram::(write|write_real|read|flip_endian|ReadError::.*|TreeGram) Endian::.* main@(arpa2bin|bin2arpa|arpasize){read,write,convert_to_backoff} InterTreeGram::(read|write|test_write) str::read_string
     str::read_line'''.split())

prop('C11', 'Saved counts can be read back completely',
     'The file of counts written by a model and the reader of such files agree on every field: the order, each n-gram\'s words and count, and each history\'s back-off statistics in the same order, for both kinds of statistics. '
     'Each value read is stored for the n-gram on its own line, and incomplete files are refused.',
     ['inputs', 'configurations'], 'every count set, key and count type and file',
     TESTS + 'no test writes counts and reads them back.',
     ['src/MultiOrderCounts_tmpl.hh', 'src/NgramCounts_tmpl.hh', 'src/InterKn_tmpl.hh'],
     [('writer', 'src/MultiOrderCounts_tmpl.hh:WriteCounts, WriteCounts_BOhelper, write_num'), ('reader', 'src/MultiOrderCounts_tmpl.hh:ReadCounts, ReadCounts_BOhelper, read_num'),
      ('n-gram count files', 'src/NgramCounts_tmpl.hh:read, write, ascii2num')],
     '''MultiOrderCounts.*::(WriteCounts.*|ReadCounts.*|read_num|write_num|SetBackoff|SetCount) NgramCounts_t::(read|read_vocab|order) NgramCounts::ascii2num
     InterKn_t::(write_counts|counts2ascii) Varigram_t::write_debug_counts'''.split())

prop('C12', 'ARPA files hold every n-gram once with its own numbers, and are read back alike',
     'Writing a model in ARPA format lists, per order, exactly as many n-grams as its header announces, each with its own words, log-probability and, where it has one, back-off weight. '
     'Reading an ARPA file stores each listed n-gram with the log-probability and back-off weight of its own line, in base ten as written.',
     ['inputs', 'configurations'], 'every model and every well-formed ARPA file',
     TESTS + 'files are only compared by the perplexity they give, on models without empty orders or missing back-off weights.',
     ['src/HashGram_tmpl.hh', 'src/TreeGramArpaReader.cc', 'src/ArpaReader.cc', 'src/InterKn_tmpl.hh'],
     [('hash writer and reader', 'src/HashGram_tmpl.hh:write_real, read_real'), ('tree writer and reader', 'src/TreeGramArpaReader.cc:read, write, write_interpolated'),
      ('parsing', 'src/ArpaReader.cc:read_header, next_gram'), ('direct export', 'src/InterKn_tmpl.hh:counts2asciilm')],
     '''HashGram_t::(write|write_real|read|read_real) TreeGramArpaReader::.* ArpaReader::.* InterKn_t::counts2asciilm main@(arpa2arpa|arpa2bin|bin2arpa){read,write,convert_to_backoff}
     Varigram_t::(write|write_narpa) Varigram::write_vocab safelogprob'''.split())

prop('C13', 'Malformed input files are refused and never corrupt memory',
     'Text from any model, count, vocabulary or corpus file, however long, short or malformed, is never written past the memory meant for it and never used to index past a table. '
     'Input that breaks its format ends the program or raises an error instead of being taken as data.',
     ['inputs', 'fault_sequences'], 'every byte string given as any input file',
     TESTS + 'only well-formed files are given.',
     ['src/ArpaReader.cc', 'src/NgramCounts_tmpl.hh', 'src/MultiOrderCounts_tmpl.hh', 'src/Storage_tmpl.hh', 'src/Vocabulary.cc', 'src/PerplexityFuncs.cc', 'src/TreeGram.cc', 'src/str.cc'],
     [('bounded field widths', 'src/MultiOrderCounts_tmpl.hh:InitializeCountsFromText; src/Storage_tmpl.hh; src/PerplexityFuncs.cc:logprob_file'),
      ('refusal', 'src/ArpaReader.cc:read_error; src/TreeGram.cc:read; src/MultiOrderCounts_tmpl.hh:ReadCounts; src/NgramCounts_tmpl.hh:read'),
      ('index limits', 'src/Vocabulary.cc:word; src/PerplexityFuncs.cc:find_indices')],
     '''ArpaReader::.* TreeGram::read TreeGram::ReadError::.* NgramCounts_t::(read|read_vocab|count) NgramCounts::ascii2num MultiOrderCounts.*::(ReadCounts.*|read_num|InitializeCountsFrom.*)
     Storage_t::(initialize_fast.*|init_fsl_file) Perplexity::(logprob_file|find_indices|load_mbs|init_special_symbols) Vocabulary::(word.*|read) str::(read_.*|str2.*|split.*|long_vec|clean|chomp) HashGram_t::read_real TreeGramArpaReader::read'''.split())

prop('C14', 'Words and word numbers correspond one to one',
     'Every word added to a vocabulary gets its own number and keeps it; adding it again gives the same number, asking for an unknown word gives the out-of-vocabulary number, and each number gives back its word. '
     'Writing a vocabulary and reading it back, copying it, or shrinking it to the words kept preserves this correspondence, and counts follow their words.',
     ['histories', 'inputs'], 'every sequence of additions, copies, reads and shrinkings',
     TESTS + 'repeated words, comments, blank lines, an out-of-vocabulary word given in the list and shrinking are not covered.',
     ['src/Vocabulary.cc', 'src/Vocabulary.hh', 'src/NgramCounts_tmpl.hh'],
     [('two tables', 'src/Vocabulary.cc:add_word, word, word_index, set_oov, clear_words'), ('files', 'src/Vocabulary.cc:read, write'), ('shrinking', 'src/NgramCounts_tmpl.hh:shrink')],
     '''Vocabulary::.* NgramCounts_t::(shrink|read_vocab) Varigram::write_vocab'''.split())

prop('C15', 'Perplexity counts every scored token exactly once under the documented rules',
     'Perplexity is computed from the sum of the log-probabilities of the scored tokens and their number; out-of-vocabulary words, context-control tokens and sentence starts are handled as documented, each token is scored at most once and with the history that precedes it. '
     'Hit rates count each scored token once under the n-gram order that was used, and starting a new text or changing the mixture resets what must be reset.',
     ['inputs', 'histories', 'configurations'], 'every text, model and choice of symbols, word-boundary or morph-boundary marks',
     TESTS + 'plain sentences and one option set are evaluated, with tolerances that hide a token counted twice or left out.',
     ['src/PerplexityFuncs.cc', 'src/PerplexityFuncs.hh', 'app/perplexity.cc'],
     [('scoring', 'src/PerplexityFuncs.cc:logprob, logprob_file, sentence_logprob'), ('hit rates', 'src/PerplexityFuncs.cc:reset_hitrates, get_hitorder, print_hitrates'),
      ('results', 'src/PerplexityFuncs.cc:print_results'), ('special tokens', 'src/PerplexityFuncs.cc:init_special_symbols, is_wb, is_mb')],
     '''Perplexity::.* main@perplexity{!open,close,operator...,parse,operator.new,exit}'''.split())

prop('C16', 'Every file is opened as asked, closed, and write errors are noticed',
     'A file name selects plain, compressed or standard streams by the same rules for reading and for writing, an unopenable file is an error, and each stream is closed with the call that matches how it was opened. '
     'A failed write ends the program with an error instead of leaving a silently incomplete file.',
     ['inputs', 'fault_sequences'], 'every file name, mode and failure of opening, writing or closing',
     TESTS + 'no test opens a missing, unwritable or full target, and few use compressed files.',
     ['src/io.cc', 'src/io.hh', 'app'],
     [('opening', 'src/io.cc:open'), ('closing', 'src/io.cc:close')],
     '''io::.* .*{open,close,Stream,~Stream}'''.split())

prop('C17', 'Command-line options mean what the help says and reach the algorithm',
     'Each option is recognised in its short and long form, takes an argument exactly when declared to, has the documented default, and a missing argument, unknown option or missing required option is an error. '
     'Each program hands the value of each option to the step it is documented to control.',
     ['configurations', 'inputs'], 'every command line of every program',
     TESTS + 'a few option combinations are used; most options never are.',
     ['src/conf.cc', 'app'],
     [('parsing', 'src/conf.cc:operator(), parse, parse_aux, check_required, get_int, get_double'), ('programs', 'app/*.cc:main')],
     '''conf::.* main@.*{!close,open,Stream,~Stream} component_models_and_weights str::(str2.*|split.*|clean|chomp|fmt.*|long_vec)'''.split())

prop('C18', 'An exported model contains every prefix and suffix its n-grams need',
     'In every exported model each n-gram\'s history is itself present with its back-off weight, and every n-gram with a stored back-off can be reached by dropping words one at a time. '
     'N-grams are added only to complete the model, with the probability the model already gave them, and empty highest orders are dropped.',
     ['inputs', 'histories'], 'every model after any amount of pruning or growing',
     TESTS + 'models in the tests are too small and too little pruned to lack a history.',
     ['src/InterKn_tmpl.hh', 'src/HashGram_tmpl.hh', 'src/TreeGram.cc', 'app/add_zeroprob_grams.cc', 'app/check_model.cc'],
     [('completion', 'src/InterKn_tmpl.hh:add_zeroprob_grams_fbase, add_counts_for_backoffs_fbase; src/HashGram_tmpl.hh:add_zeroprob_grams'),
      ('export', 'src/InterKn_tmpl.hh:counts2lm, counts2asciilm'), ('order check', 'src/TreeGram.cc:check_order')],
     '''InterKn_t::(add_zeroprob_grams.*|add_counts_for_backoffs.*|counts2lm|counts2asciilm|remove_zeroprob_grams) InterKn_int_disc3?::(add_.*) HashGram_t::(add_zeroprob_grams|remove_empty_grams)
     TreeGram::(check_order|finalize|add_gram) main@(add_zeroprob_grams|check_model){!open,close,parse,operator...} check_gram print_indices MultiOrderCounts.*::RemoveOrder'''.split())

prop('C19', 'No logarithm or division is taken outside its domain',
     'Computing probabilities, weights or log-probabilities never takes the logarithm of zero or a negative number or divides by a zero count: contexts without counts take the documented fallback, and vanishing probabilities are replaced by the documented floor. '
     'So no model, training report or perplexity contains infinities or not-a-number values.',
     ['inputs', 'configurations'], 'every count set, including empty contexts, zero discounts and unseen words',
     TESTS + 'degenerate contexts do not occur in the small corpus.',
     ['src/InterKn_tmpl.hh', 'src/HashGram_tmpl.hh', 'src/def.hh', 'src/PerplexityFuncs.cc', 'src/TreeGram.cc'],
     [('floored logarithms', 'src/def.hh:safelogprob, safelogprob2'), ('guarded divisions', 'src/InterKn_tmpl.hh:kn_prob, kn_coeff, kn_coeff_3nzer, calculate_leaveoneout_discounts')],
     '''safelogprob2? InterKn.*::(kn_prob|kn_coeff.*|tableprob|counts2lm|counts2asciilm|logprob_datastorage|calculate_leaveoneout_discounts) HashGram_t::(renormalize_backoffs|prune|fake_interpolate|normalize_and_set_bo)
     TreeGram::convert_to_backoff InterTreeGram::log_prob.* Perplexity::(logprob|print_results|sentence_logprob)'''.split())

prop('C20', 'Count tables are created once, owned once and freed once',
     'Every table a model allocates is freed exactly once when the model goes away, tables handed from one owner to another are no longer freed by the first, and missing orders are created before they are used. '
     'A vocabulary too large for the small index type is never stored with it.',
     ['histories', 'configurations'], 'every construction, hand-over and destruction, and every vocabulary size',
     TESTS + 'no test runs under a memory checker or uses a vocabulary beyond the limit of the small index type.',
     ['src/MultiOrderCounts_tmpl.hh', 'src/InterKn_tmpl.hh', 'src/HashGram_tmpl.hh', 'src/NgramCounts_tmpl.hh', 'app/counts2kn.cc', 'app/varigram_kn.cc', 'src/sparse_matrix.c'],
     [('allocation', 'src/MultiOrderCounts_tmpl.hh:allocate_matrices_counts, allocate_matrices_backoffs; src/sparse_matrix.c:CreateMatrix, DeleteMatrix'),
      ('hand-over', 'src/InterKn_tmpl.hh:constructor_helper; src/MultiOrderCounts.hh:UseAsCounts'), ('choice of index type', 'app/counts2kn.cc, app/varigram_kn.cc')],
     '''MultiOrderCounts.*::(allocate_matrices.*|~?MultiOrderCounts\\w*|RemoveOrder|clear_derived_counts|clear_nzer) InterKn.*::(~?InterKn\\w*|constructor_helper)
     HashGram.*::~?HashGram\\w* NgramCounts.*::~?NgramCounts\\w* Varigram.*::(~?Varigram\\w*|initialize) CreateMatrix[DFI]? DeleteMatrix check_malloc sikMatrix::(~?sikMatrix|clear)
     main@(counts2kn|varigram_kn){operator.new,Varigram_t,reset,InterKn_int_disc3?,<indirect>,delete}
     InterTreeGram::~?InterTreeGram TreeGram::~?TreeGram Storage_t::~?Storage_t'''.split())

prop('C21', 'The tree model keeps its nodes sorted and its links inside the table',
     'N-grams are inserted into the tree in sorted order, siblings are stored contiguously in increasing word order, and each node\'s children are those between its own link and its successor\'s. '
     'Walking or printing the tree therefore meets every n-gram once, and insertion out of order or without its history is refused.',
     ['inputs', 'histories'], 'every set of n-grams and every walk',
     TESTS + 'trees are built from sorted well-formed files only.',
     ['src/TreeGram.cc', 'src/GramSorter.cc', 'src/TreeGramArpaReader.cc'],
     [('insertion', 'src/TreeGram.cc:add_gram, check_order, reserve_nodes, finalize'), ('sorting', 'src/GramSorter.cc'), ('walks', 'src/TreeGram.cc:Iterator')],
     '''TreeGram::(add_gram|check_order|reserve_nodes|finalize|Iterator::.*|iterator|print_gram|print_debuglist|find_path|find_child|binary_search|fetch_gram) GramSorter::.* TreeGramArpaReader::(read|write)'''.split())

prop('C22', 'Pruning and merging recompute every back-off weight they affect',
     'When n-grams are removed from a finished model, or two models are merged, the back-off weight of each history is recomputed from the mass of exactly the n-grams that remain under it and the mass the lower order gives them. '
     'Nothing but the removed or merged n-grams and those weights changes.',
     ['inputs', 'configurations'], 'every model and threshold',
     TESTS + 'no test prunes or merges a finished model.',
     ['src/HashGram_tmpl.hh', 'src/TreeGram.cc'],
     [('pruning', 'src/HashGram_tmpl.hh:prune'), ('weights', 'src/HashGram_tmpl.hh:renormalize_backoffs, normalize_and_set_bo; src/TreeGram.cc:convert_to_backoff'), ('merging', 'src/HashGram_tmpl.hh:fake_interpolate')],
     '''HashGram_t::(prune|renormalize_backoffs|normalize_and_set_bo|remove_empty_grams|fake_interpolate) TreeGram::convert_to_backoff'''.split())

prop('C23', 'The discount search stays within its limits and keeps the best point it saw',
     'The optimiser only ever evaluates points within the declared minimum and maximum of each parameter, starts from the given point, and the discounts used afterwards are the ones it returned. '
     'Setting limits or a start point affects exactly the parameters given.',
     ['inputs', 'configurations'], 'every dimension, limit, start point and objective',
     TESTS + 'the objective of the small corpus seldom pushes a parameter to its limit.',
     ['src/QFit.cc', 'src/InterKn_tmpl.hh'],
     [('limits', 'src/QFit.cc:check_limits, minimize'), ('use', 'src/InterKn_tmpl.hh:find_coeffs, evaluate')],
     '''QFit.* InterKn_t::(find_coeffs|evaluate) InterKn_int_disc3?::(initialize_minmax|flatv2disc|disc2flatv)'''.split())

prop('C24', 'Every n-gram of the training text is counted exactly once, within sentences',
     'Counting a text or a stored word sequence adds one to each n-gram of each order occurring in it, with contexts starting at sentence starts and never reaching across them, unknown words mapped to the out-of-vocabulary word. '
     'Reading the same text into storage gives the same sequence of words, and searching that sequence gives every position of an n-gram once.',
     ['inputs', 'configurations'], 'every text, vocabulary and order',
     TESTS + 'one text is counted, and only the resulting perplexity is looked at.',
     ['src/MultiOrderCounts_tmpl.hh', 'src/NgramCounts_tmpl.hh', 'src/Storage_tmpl.hh'],
     [('counting', 'src/MultiOrderCounts_tmpl.hh:InitializeCountsFromText, InitializeCountsFromStorage; src/NgramCounts_tmpl.hh:count'),
      ('storage', 'src/Storage.hh; src/Storage_tmpl.hh:read, initialize_fast_search_lists, fast_search_next')],
     '''MultiOrderCounts.*::(InitializeCountsFrom.*|IncrementCount|Increment_wo_del|GetCount|allocate_matrices_counts) NgramCounts_t::count Storage_t::.* InterKn_t::(constructor_helper|create_model)'''.split())

prop('C25', 'String parsing helpers are exact and report what they cannot parse',
     'Numbers given as text are accepted only when the whole text is a number, and the caller learns of failure; lines are read whole whatever their length, with the end of line handled as asked. '
     'Splitting and trimming return every field, in order, with nothing lost or added.',
     ['inputs'], 'every string and file',
     TESTS + 'helpers are only reached through well-formed options and files.',
     ['src/str.cc', 'src/conf.cc'],
     [('numbers', 'src/str.cc:str2long, str2float'), ('lines', 'src/str.cc:read_line, read_string, read_file'), ('fields', 'src/str.cc:split, split_with_quotes, clean, chomp')],
     '''str::.* conf::Option::get_(int|double|.*) NgramCounts::ascii2num'''.split())

prop('C26', 'Growing and pruning remove or add exactly the n-grams the criterion selects',
     'Growing keeps a candidate n-gram exactly when its change of coded data size passes the given threshold, pruning removes an n-gram exactly when its cost is below the given threshold, and both respect the requested limits on order and size. '
     'The written model is the final one after all requested steps, in the requested format.',
     ['inputs', 'configurations', 'histories'], 'every corpus, threshold and limit',
     TESTS + 'thresholds and limits are tried at a few values and only model size bounds are asserted.',
     ['src/VarigramFuncs_tmpl.hh', 'src/InterKn_tmpl.hh', 'app/varigram_kn.cc', 'app/counts2kn.cc'],
     [('growing', 'src/VarigramFuncs_tmpl.hh:grow, reestimate_with_history, modify_model'), ('pruning', 'src/InterKn_tmpl.hh:prune_model_fbase; src/VarigramFuncs_tmpl.hh:prune'),
      ('driver', 'app/varigram_kn.cc:main, app/counts2kn.cc:main')],
     '''Varigram.*::.* InterKn_t::(prune_model_fbase|create_model) InterKn_int_disc3?::(prune_model|prune_gram) main@(varigram_kn|counts2kn){!open,close,operator...,parse,Stream,~Stream,operator.new,exit}'''.split())

# properties outside the reach of static analysis
NA = {}


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, [])
    NA[id] = reason


na('C27', 'The probabilities of all words after any history add up to one',
   'For every history, the probabilities a model gives to all words of its vocabulary add up to one, for trained, pruned, grown, interpolated and reloaded models, up to rounding.',
   ['inputs', 'configurations'], 'every model and history',
   TESTS + 'sums are checked for no history.', ['src/InterKn_tmpl.hh', 'src/HashGram_tmpl.hh', 'src/TreeGram.cc'],
   [('mass', 'src/InterKn_tmpl.hh:kn_prob, kn_coeff'), ('weights', 'src/HashGram_tmpl.hh:renormalize_backoffs')],
   'A numerical sum over run-time tables: no static argument in reach bounds it. Its structural clauses (mass formula, denominators, recomputed back-off weights) are decided under C05, C07 and C22.')
na('C28', 'Growing and pruning reach the best model for the size',
   'The model grown or pruned to a given size is at least as good, by perplexity on held-out text, as the alternatives of that size.',
   ['inputs', 'configurations'], 'every corpus and size', TESTS + 'one corpus.', ['src/VarigramFuncs_tmpl.hh', 'src/InterKn_tmpl.hh'],
   [('greedy search', 'src/VarigramFuncs_tmpl.hh:grow')],
   'Quality of a greedy heuristic on run-time data; nothing in the shape of the code decides it. What the criterion is compared with is decided under C26.')
na('C29', 'The discount search converges to the minimum of the objective',
   'The discounts found are, within the requested accuracy, those with the lowest perplexity on the held-out text.',
   ['inputs', 'configurations'], 'every objective', TESTS + 'one objective.', ['src/QFit.cc'],
   [('quadratic fit', 'src/QFit.cc:minimize')],
   'Convergence of a numerical optimiser over run-time values. That it stays within limits and that its result is used is decided under C23.')
na('C30', 'Numbers survive a round trip through text files unchanged',
   'A log-probability or back-off weight written to a text file and read back is the same number, to the precision the format promises.',
   ['inputs'], 'every float', TESTS + 'only perplexities are compared.', ['src/HashGram_tmpl.hh', 'src/TreeGramArpaReader.cc', 'src/ArpaReader.cc'],
   [('formats', 'src/HashGram_tmpl.hh:write_real')],
   'Round-trip equality of decimal conversion in the C library is a property of run-time values. The formats and the fields themselves are decided under C11 and C12.')
na('C31', 'Time and memory stay proportional to the size of the data',
   'Training, pruning, growing and querying use time and memory that grow in proportion to the text, the number of n-grams and the order.',
   ['inputs'], 'every corpus', TESTS + 'one small corpus.', ['src/sparse_matrix.c', 'src/InterKn_tmpl.hh'],
   [('tables', 'src/sparse_matrix.c')], 'Run-time cost depends on data and the machine; static bounds on these loops are out of reach.')


def _spec(s):
    """'name' or 'name{row,row}' or 'name{!row,row}': a function, some of its effects, or all but some"""
    import re
    m = re.match(r'^(.*?)(?:\{(!?)([^}]*)\})?$', s)
    rx = re.compile('^(?:%s)(?:\\[abi:cxx11\\])?$' % m.group(1))
    if m.group(3) is None:
        return rx, None
    L = re.compile('^(?:%s)$' % m.group(3).replace(',', '|'))
    neg = bool(m.group(2))
    return rx, lambda k, n, r: bool(L.match(n)) != neg


def slices():
    """property -> functions of the reference"""
    return {i: [_spec(x) for x in p['fns']] for i, p in P.items() if p['fns']}


def functions(i, ref):
    """[(function, selector of effects or None)]"""
    out = []
    for b in sorted(ref):
        ss = [s for rx, s in (_spec(x) for x in P[i]['fns']) if rx.match(b)]
        if not ss:
            continue
        if None in ss:
            out.append((b, None))
        else:
            f = lambda k, n, r, ss=ss: any(s(k, n, r) for s in ss)
            if any(f(r[0], r[1], r) for r in ref[b]['rows']):
                out.append((b, f))
    return out


def write(verif):
    import json, os
    import rules
    M = {'version': 1, 'setup_cmd': 'python3 engine/build.py', 'checks': [], 'not_applicable': []}
    for i, p in sorted(P.items()):
        if i in NA:
            M['not_applicable'].append({'property': i, 'reason': NA[i]})
            continue
        rs = [r.__name__ for r in rules.FOR.get(i, [])]
        M['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'static analysis of the compiled program (LLVM IR): effects of each function in value normal form with path conditions, '
                         'compared as functions with the required ones' + ('; rules: ' + ', '.join(rs) if rs else ''),
            'level': 'other',
            'level_note': 'Every path of the anchored functions on the current source; not run. Trusts the reviewed '
                          'required effects, library semantics and the compiler front end; loops rewritten beyond recognition are reported as undecided, not as violations.'})
    with open(os.path.join(verif, 'MANIFEST.json'), 'w') as o:
        json.dump(M, o, indent=1)
        o.write('\n')
    with open(os.path.join(verif, 'properties.jsonl'), 'w') as o:
        for i, p in sorted(P.items()):
            q = {'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}
            if p['observe']:
                q['anchors']['observe_at'] = p['observe']
            o.write(json.dumps(q) + '\n')


if __name__ == '__main__':
    import json, sys, os
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if sys.argv[1:] == ['write']:
        write(V)
    else:
        import refs
        r = refs.load()
        seen = {}
        for i in sorted(slices()):
            fs = functions(i, r)
            print(i, len(fs), sum(sum(1 for x in r[b]['rows'] if s is None or s(x[0], x[1], x)) for b, s in fs))
            for rx, _ in slices()[i]:
                if not any(rx.match(b) for b in r):
                    print('   no match', rx.pattern)
            for b, s in fs:
                for x in r[b]['rows']:
                    if s is None or s(x[0], x[1], x):
                        seen.setdefault((b, x), []).append(i)
        from collections import Counter
        un = Counter((b, x[1]) for b in r for x in r[b]['rows'] if (b, x) not in seen)
        print('uncovered', dict(un))
