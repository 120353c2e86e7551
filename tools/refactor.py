#!/usr/bin/env python3
"""False-alarm test: a copy of /repo in which about sixty functions are rewritten without changing their behaviour.

refactor.py DIR    writes the rewritten copy to DIR; then run the checks with VERIF_REPO=DIR: all of them must hold
"""
import shutil
import sys

shutil.rmtree(sys.argv[1], ignore_errors=True)
shutil.copytree('/repo', sys.argv[1], ignore=shutil.ignore_patterns('.git', '__pycache__'))
R = sys.argv[1] + '/scrappybara/'
def sub(f, *pairs):
    s=open(R+f,encoding='utf-8').read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(R+f,'w',encoding='utf-8').write(s)
def whole(f, s): open(R+f,'w',encoding='utf-8').write(s)

whole('utils/multithreading.py','''from concurrent.futures import ThreadPoolExecutor, wait

from scrappybara.utils.mutables import divide_list


def _run_chunk(chunk, process):
    results = []
    for item in chunk:
        results.append(process(item))
    return results


def run_multithreads(items, process, nb_threads):
    """Applies process on items with several threads, results are in the order of items"""
    chunks = divide_list(items, nb_threads)
    if not chunks:
        return []
    with ThreadPoolExecutor(max_workers=len(chunks)) as executor:
        futures = [executor.submit(_run_chunk, chunk, process) for chunk in chunks]
        wait(futures)
    merged = []
    for future in futures:
        merged += future.result()
    return merged
''')
sub('utils/mutables.py',('''    assert nb_lists > 0
    len_list = len(items)
    if nb_lists <= len_list:
        result = []
        ranges = np.linspace(0, len_list, num=nb_lists + 1)
        for i in range(len(ranges) - 1):
            result.append(items[int(ranges[i]):int(ranges[i + 1])])
    else:
        return [[full_list] for full_list in items]
    return result
''','''    assert nb_lists > 0
    total = len(items)
    if nb_lists > total:
        return [[item] for item in items]
    marks = [int(mark) for mark in np.linspace(0, total, num=nb_lists + 1)]
    return [items[start:end] for start, end in zip(marks[:-1], marks[1:])]
'''),('''    if key in dic:
        dic[key].append(item)
    else:
        dic[key] = [item]
''','''    dic.setdefault(key, []).append(item)
'''),('''    if key1 in dic:
        if key2 in dic[key1]:
            dic[key1][key2].append(item)
        else:
            dic[key1][key2] = [item]
    else:
        dic[key1] = {key2: [item]}
''','''    dic.setdefault(key1, {}).setdefault(key2, []).append(item)
'''))
sub('utils/tree.py',('''        anc_branch = []

        def _recurse_climb(_child):
            _label_node = self.parent(_child)
            if _label_node is not None:
                _parent_label, _parent_node = _label_node
                if _parent_label == label:
                    anc_branch.append(_parent_node)
                    _recurse_climb(_parent_node)

        _recurse_climb(node)
        anc_branch.reverse()
        return anc_branch
''','''        branch = []
        arc = self.parent(node)
        while arc is not None and arc[0] == label:
            branch.insert(0, arc[1])
            arc = self.parent(arc[1])
        return branch
'''),('''        nodes = []

        def _recurse_add_descendants(_parent):
            try:
                _label_children = self.__children[_parent]
                for _child in _label_children[label]:
                    nodes.append(_child)
                    _recurse_add_descendants(_child)
            except KeyError:
                return

        _recurse_add_descendants(node)
        return nodes
''','''        found = []
        todo = list(reversed(self.children_via(node, label)))
        while todo:
            current = todo.pop()
            found.append(current)
            todo.extend(reversed(self.children_via(current, label)))
        return found
'''),('''        try:
            return self.__parents[node]
        except KeyError:
            return None
''','''        return self.__parents.get(node)
'''),('''        try:
            return self.__children[node][label]
        except KeyError:
            return []
''','''        return list(self.__children.get(node, {}).get(label, ()))
'''),('''        try:
            return self.__children[node][label][0]
        except KeyError:
            return None
''','''        return next(iter(self.children_via(node, label)), None)
'''),('''        try:
            _, parent = self.__parents[node]
            siblings = []
            for label, children in self.__children[parent].items():
                for child in children:
                    if child != node:
                        siblings.append((label, child))
            return siblings
        except KeyError:
            return []
''','''        arc = self.parent(node)
        if arc is None:
            return []
        return [(label, child) for label, child in self.children(arc[1]) if child != node]
'''),('''        return any([node in self.__children, node in self.__parents])''','''        return node in self.__parents or node in self.__children'''))
# parser: lists instead of deques, renamed internals
sub('syntax/parser.py',('collections.deque([idx for idx in range(seq_length - 2) if self.__deps[idx] != Dep.NODEP])','list(self.__real_idxs())'),
('        self.__stack = collections.deque([])\n','        self.__stack = []\n'),
('self.__buffer.popleft()','self.__buffer.pop(0)'),('import collections\nimport os','import os'),
('''    def __pdep(self, child_idx):
        pdep = self.__deps[child_idx]
        if pdep == Dep.ROOT:
            return Dep.SPLIT  # ROOT cannot have any parent
        return pdep
''','''    def __real_idxs(self):
        for idx, dep in enumerate(self.__deps):
            if dep != Dep.NODEP:
                yield idx

    def __pdep(self, child_idx):
        return Dep.SPLIT if self.__deps[child_idx] == Dep.ROOT else self.__deps[child_idx]
'''),('''        cands = set()
        cannot_be_root = set()
        for _, pdix, cidx in self.arcs:
            cands |= {pdix, cidx}
            cannot_be_root.add(cidx)
        try:
            return sorted(cands - cannot_be_root)[0]
        except IndexError:
            return None
''','''        parents = {parent for _, parent, _ in self.arcs}
        children = {child for _, _, child in self.arcs}
        return min(parents - children, default=None)
'''),('''        if trans == Trans.LEFT:
            # A token has a single parent: the left arc is ignored if the token already has one
            if not any([child_idx == self.__stack[-1] for _, _, child_idx in self.arcs]):
                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
            self.__reduce()
        elif trans == Trans.RIGHT:
            self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
            self.__shift()
        elif trans == Trans.REDUCE:
            self.__reduce()
        elif trans == Trans.SHIFT:
            self.__shift()
''','''        top, following = self.__stack[-1], self.__buffer[0]
        if trans == Trans.RIGHT:
            self.arcs.append((self.__pdep(following), top, following))
        if trans == Trans.LEFT and top not in [child for _, _, child in self.arcs]:
            self.arcs.append((self.__pdep(top), following, top))
        if trans in (Trans.RIGHT, Trans.SHIFT):
            self.__shift()
        elif trans in (Trans.LEFT, Trans.REDUCE):
            self.__reduce()
'''),('''        batches = make_batches(mats, self.__batch_size)
        all_parses = []
        for batch in batches:
            seq_lengths, char_codes, word_vectors = zip(*batch)
            tag_codes = self.__predict_tags(char_codes, word_vectors)
            dep_codes = self.__predict_deps(tag_codes, char_codes, word_vectors)
            for idx, seq_length in enumerate(seq_lengths):
                all_parses.append(
                    _Parse(seq_length, tag_codes[idx], dep_codes[idx], char_codes[idx], word_vectors[idx]))
        # Predict transitions
        incomplete_parses = [parse for parse in all_parses if not parse.complete]
        while incomplete_parses:
            parse_batches = make_batches(incomplete_parses, self.__batch_size)
            for batch in parse_batches:
                self.__predict_transitions(batch)
            incomplete_parses = [parse for parse in all_parses if not parse.complete]
''','''        all_parses = []
        for batch in make_batches(mats, self.__batch_size):
            all_parses += self.__start_parses(batch)
        # Predict transitions
        todo = [parse for parse in all_parses if not parse.complete]
        while todo:
            for batch in make_batches(todo, self.__batch_size):
                self.__predict_transitions(batch)
            todo = [parse for parse in todo if not parse.complete]
'''),('''    def __vectorize_sentence(self, tokens):''','''    def __start_parses(self, batch):
        seq_lengths, char_codes, word_vectors = zip(*batch)
        tag_codes = self.__predict_tags(char_codes, word_vectors)
        dep_codes = self.__predict_deps(tag_codes, char_codes, word_vectors)
        return [_Parse(*mats) for mats in zip(seq_lengths, tag_codes, dep_codes, char_codes, word_vectors)]

    def __vectorize_sentence(self, tokens):'''))
# tokenizer
sub('preprocessing/tokenizer.py',('''        # Protect tokens
        protected, text = self.__protect_text(text)
        # Protect single symbols
        for nsp in self.__re_no_split:
            text = re.sub(nsp[0], nsp[1], text)
        # Segment off unambiguous patterns
        text = re.sub(self.__re_always_split, r' \\g<0> ', text)
        # Segment off ending dots
        tokens = []
        for token in text.split():
            if any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot]):
                tokens.append(token)
            else:
                for pattern, rep in self.__re_token_split_dot:
                    token = re.sub(pattern, rep, token)
                tokens.extend(token.split())
        text = ' '.join(tokens)
        # Segment off other symbols
        for pattern, replace in self.__re_segment_off:
            text = re.sub(pattern, replace, text)
        text = ' '.join(text.split())
''','''        protected, text = self.__protect_text(text)
        text = self.__apply(self.__re_no_split, text)
        text = self.__re_always_split.sub(lambda m: ' %s ' % m.group(), text)
        text = ' '.join(part for token in text.split() for part in self.__cut_dots(token))
        text = ' '.join(self.__apply(self.__re_segment_off, text).split())
'''),('''        for replace in self.__re_reattach:
            text = re.sub(replace[0], replace[1], text)
''','''        text = self.__apply(self.__re_reattach, text)
'''),('''        for key, value in reversed(list(protected.items())):
            text = text.replace(key, value)
        return text.split()
''','''        while protected:
            key, value = protected.pop()
            text = text.replace(key, value)
        return text.split()

    @staticmethod
    def __apply(rules, text):
        for regex, replacement in rules:
            text = regex.sub(replacement, text)
        return text

    def __cut_dots(self, token):
        """Separates the dots of a token if needed"""
        for regex in self.__re_token_nosplit_dot:
            if regex.fullmatch(token):
                return [token]
        return self.__apply(self.__re_token_split_dot, token).split()
'''),('''        protected = {}
        index = 1
        for pattern in self.__re_protect:
            match = re.search(pattern, text)
            while match:
                token = match.group()
                key = '_PROTECTED_%d_' % index
                protected[key] = token
                text = text[:match.start()] + key + text[match.end():]
                match = re.search(pattern, text)
                index += 1
        return protected, text
''','''        protected = []
        for pattern in self.__re_protect:
            while True:
                match = pattern.search(text)
                if match is None:
                    break
                key = '_PROTECTED_%d_' % (len(protected) + 1)
                protected.append((key, match.group()))
                text = ''.join([text[:match.start()], key, text[match.end():]])
        return protected, text
'''))
sub('preprocessing/sanitization.py',('''    try:
        text = text.strip()
        for rep in patterns_replacements:
            text = re.sub(rep[0], rep[1], text)
        return ' '.join(text.split())
    except (AttributeError, KeyError):
        return \'\'''','''    if not hasattr(text, 'strip'):
        return \'\'
    result = text.strip()
    for pattern, replacement in patterns_replacements:
        result = re.sub(pattern, replacement, result)
    return ' '.join(result.split())'''))
sub('preprocessing/sentencizer.py',('''        sents = []
        current_sent = []
        for token in tokens:
            if re.fullmatch(self.__re_sent_enders, token):
                if token != '¶':
                    current_sent.append(token)
                if current_sent:
                    sents.append(current_sent)
                current_sent = []
            else:
                current_sent.append(token)
        if current_sent:
            sents.append(current_sent)
        return sents
''','''        sents = [[]]
        for token in tokens:
            if token != '¶':
                sents[-1].append(token)
            if self.__re_sent_enders.fullmatch(token):
                sents.append([])
        return [sent for sent in sents if sent]
'''),('''        shift = 0
        for quote, sidx, eidx in [(m.group(), m.start(), m.end()) for m in re.finditer(pattern, text)]:
            ctr.append(quote[1:-1])
            number = str(len(ctr) - 1)
            text = text[:sidx - shift] + ' ' + block_starter + number + block_ender + ' ' + text[eidx - shift:]
            shift += len(quote) - 4 - len(number)
        return re.sub(self.__re_multi_spaces, ' ', text)
''','''        def _store(_match):
            ctr.append(_match.group()[1:-1])
            return ' %s%d%s ' % (block_starter, len(ctr) - 1, block_ender)

        return re.sub(self.__re_multi_spaces, ' ', pattern.sub(_store, text))
'''),('''                sent_tokens_with_blocks = []
                for token in sent_tokens:
                    if _is_quote_block(token):
                        _insert_quote_block(token, sent_tokens_with_blocks)
                    elif _is_bracket_block(token):
                        idx = int(token[1:-1])
                        sent_tokens_with_blocks.append('(')
                        for nested_token in _tokenize_block(brackets[idx]):
                            if _is_quote_block(nested_token):
                                _insert_quote_block(nested_token, sent_tokens_with_blocks)
                            else:
                                sent_tokens_with_blocks.append(nested_token)
                        sent_tokens_with_blocks.append(')')
                    else:
                        sent_tokens_with_blocks.append(token)
                token_lists.append(sent_tokens_with_blocks)
''','''                expanded = []
                for token in sent_tokens:
                    if _is_bracket_block(token) and not _is_quote_block(token):
                        expanded.append('(')
                        _expand_quotes(_tokenize_block(brackets[int(token[1:-1])]), expanded)
                        expanded.append(')')
                    else:
                        _expand_quotes([token], expanded)
                token_lists.append(expanded)
'''),('''        blocks = re.split(self''','''        def _expand_quotes(_tokens, _ctr):
            for _token in _tokens:
                if _is_quote_block(_token):
                    _insert_quote_block(_token, _ctr)
                else:
                    _ctr.append(_token)

        blocks = re.split(self'''))
# pipeline
sub('pipeline/pipeline.py',('''        sent_ranges = []
        total_sents = 0
        for token_lists in tokens:
            new_total = total_sents + len(token_lists)
            sent_ranges.append((total_sents, new_total))
            total_sents = new_total
        # Flatten sentences
        tokens = [token_lists for group in tokens for token_lists in group]
''','''        sizes = [len(token_lists) for token_lists in tokens]
        # Flatten sentences
        tokens = list(itertools.chain.from_iterable(tokens))
'''),('''        docs = []
        for start, end in sent_ranges:
            doc = Document()
            for stuple_list in stuple_lists[start:end]:
                sentence = Sentence()
                sentence.stuples = stuple_list
                doc.sentences.append(sentence)
            docs.append(doc)
        return docs
''','''        remaining = iter(stuple_lists)
        return [self.__make_doc(itertools.islice(remaining, size)) for size in sizes]

    @staticmethod
    def __make_doc(stuple_lists):
        doc = Document()
        for stuple_list in stuple_lists:
            sentence = Sentence()
            sentence.stuples = stuple_list
            doc.sentences.append(sentence)
        return doc
'''),('''        new_token_lists = []
        for tokens in token_lists:
            if len(tokens) > cfg.MAX_SENT_LENGTH:
                new_token_lists.extend(
                    [list(group) for b, group in itertools.groupby(tokens, lambda x: x in self.__splitters) if not b])
            else:
                new_token_lists.append(tokens)
        # Remove sentences that are still too long
        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]
''','''        kept = []
        for tokens in token_lists:
            if len(tokens) <= cfg.MAX_SENT_LENGTH:
                kept.append(tokens)
                continue
            part = []
            for token in tokens + [':']:
                if token not in self.__splitters:
                    part.append(token)
                    continue
                if 0 < len(part) <= cfg.MAX_SENT_LENGTH:
                    kept.append(part)
                part = []
        return kept
'''))
sub('pipeline/logic_pipeline.py',('''        if len(sent_results):
            node_dicts, stuples = zip(*sent_results)
        else:
            return [], []
        return node_dicts, stuples
''','''        return [result[0] for result in sent_results], [result[1] for result in sent_results]
'''))
# extractor
sub('semantics/semantic_tuple_extractor.py',('''def _prop_arg_code(prop):''','''def _noun_arg(noun):
    return Argument(noun.canon, _noun_arg_code(noun))


def _nouns(nodes):
    return [node for node in nodes if node.tag in NOUN_TAGS]


def _prop_arg_code(prop):'''),
('Argument(subj_1.canon, _noun_arg_code(subj_1))','_noun_arg(subj_1)'),('Argument(subj_2.canon, _noun_arg_code(subj_2))','_noun_arg(subj_2)'),
('Argument(obj.canon, _noun_arg_code(obj))','_noun_arg(obj)'),('Argument(subj.canon, _noun_arg_code(subj))','_noun_arg(subj)'),('Argument(noun.canon, _noun_arg_code(noun))\n        for','_noun_arg(noun)\n        for'),
('[s for s in verb.subjs if s.tag in NOUN_TAGS]','_nouns(verb.subjs)'),('[o for o in verb.objs if o.tag in NOUN_TAGS]','_nouns(verb.objs)'),
('''    if noun.tag == Tag.PROPN:
        return ArgCode.PROPN.value
    if noun.tag == Tag.PRON:
        return ArgCode.PRON.value
    if noun.tag == Tag.NUM:
        return ArgCode.NUM.value
    if noun.tag == Tag.SYM:
        return ArgCode.SYM.value
    return ArgCode.NOUN.value
''','''    codes = {Tag.PROPN: ArgCode.PROPN, Tag.PRON: ArgCode.PRON, Tag.NUM: ArgCode.NUM, Tag.SYM: ArgCode.SYM}
    return codes.get(noun.tag, ArgCode.NOUN).value
'''),('''        stuples = []
        if verb.canon not in self.__not_passive:
            for obj''','''        stuples = []
        if verb.canon in self.__not_passive:
            return stuples
        if True:
            for obj'''),)
# arg_finder
sub('syntax/arg_finder.py',('''                    ref = self.__resolve_relative_pron(parent, node, tree) or \\
                          self.__resolve_subj_reflexive_pron(parent, node, tree)
                    if ref:
                        _register_subjs(parent, ref, tree)
                    else:
                        _register_subjs(parent, node, tree)
''','''                    _register_subjs(parent, self.__resolve_relative_pron(parent, node, tree) or
                                    self.__resolve_subj_reflexive_pron(parent, node, tree) or node, tree)
'''),('''            for dep, child in tree.children(node):
                if dep == Dep.NEG:
                    node.is_aff = False
''','''            if tree.has_child_via(node, Dep.NEG):
                node.is_aff = False
'''),('''    for cpl in cpl.aggreg:
        if marker.canon == 'by':
            dep_parent = tree.parent(describee)
            if dep_parent is not None:
                dep, _ = dep_parent
                if dep in {Dep.PROP, Dep.CPL}:
                    describee.agents.append(cpl)
''','''    if marker.canon == 'by' and tree.has_parent_via_set(describee, {Dep.PROP, Dep.CPL}):
        describee.agents.extend(cpl.aggreg)
'''),('''    verbs = [verb]
    for v in verb.cconjs:
        if not tree.children(v):
            verbs.append(v)
    for v in verbs:
        v.objs.extend(obj.aggreg)
''','''    objs = obj.aggreg
    verb.objs.extend(objs)
    for conj in [v for v in verb.cconjs if not tree.children(v)]:
        conj.objs.extend(objs)
'''))
sub('syntax/nodifier.py',('''            particle_idxs = []
            for child_dep, child_idx in idx_tree.children(idx):
                if child_dep == Dep.PART:
                    particle_idxs.append(child_idx)
            if particle_idxs:
''','''            particle_idxs = list(idx_tree.children_via(idx, Dep.PART))
            if particle_idxs:
'''),('''        for idx, _ in enumerate(tokens):
            if not idx_tree.has_node(idx):
                bl_idxs.add(idx)
''','''        bl_idxs.update(idx for idx in range(len(tokens)) if not idx_tree.has_node(idx))
'''))
# LM
sub('langmodel/language_model.py',('''        tprobas = {tuple(self.__logps(token_context)): idx for idx, token_context in enumerate(token_contexts)}
        return tokens[tprobas[max(tprobas.keys())]]
''','''        scores = [self.__logps(token_context) for token_context in token_contexts]
        best = max(scores)
        return [token for token, score in zip(tokens, scores) if score == best][-1]
'''),('''        token_logp_tuples = [(ngram, self.__logp(ngram)) for ngram in ngrams]
        token_logp_tuples.sort(key=lambda x: x[1], reverse=True)
        return token_logp_tuples[0][0]
''','''        return max(ngrams, key=self.__logp)
'''),('''        for ngram, next_tokens in self.__next_tokens.items():
            next_tokens.sort(key=lambda x: x[1], reverse=True)
''','''        self.__next_tokens = {context: sorted(following, key=lambda x: -x[1])
                              for context, following in self.__next_tokens.items()}
'''),('''        for i in range(self.__max_order - 1, 0, -1):
            try:
                return self.__next_tokens[' '.join(tokens[-i:])][:limit]
            except KeyError:
                continue
        return []
''','''        for size in reversed(range(1, self.__max_order)):
            following = self.__next_tokens.get(' '.join(tokens[-size:]))
            if following is not None:
                return following[:limit]
        return []
'''))
sub('langmodel/language_model_builder.py',('''            batch = []
            for i in range(self.__nb_processes):
                try:
                    batch.append(next(text_iterator))
                    nb_texts += 1
                except StopIteration:
                    consumed = True
                    break
''','''            batch = list(itertools.islice(text_iterator, self.__nb_processes))
            nb_texts += len(batch)
            consumed = len(batch) < self.__nb_processes
'''),('import multiprocessing\n','import itertools\nimport multiprocessing\n'))
sub('langmodel/mkn_smoother.py',('''        # n counts
        if ngram.count == 1:
            n1[ngram.order] += 1
        elif ngram.count == 2:
            n2[ngram.order] += 1
        elif ngram.count == 3:
            n3[ngram.order] += 1
        elif ngram.count == 4:
            n4[ngram.order] += 1
''','''        if ngram.count <= 4:
            (n1, n2, n3, n4)[ngram.count - 1][ngram.order] += 1
'''),('''            if ngram.count == 1:
                wc1[wc] += 1
            elif ngram.count == 2:
                wc2[wc] += 1
            else:
                wc3[wc] += 1
''','''            {1: wc1, 2: wc2}.get(ngram.count, wc3)[wc] += 1
'''),('''    np_cc = np.maximum(np_l_counts - np_discounts, np_zero) / np_lr_counts
    np_r1_counts = np_r1_counts * operands[4]
    np_r2_counts = np_r2_counts * operands[6]
    np_r3_counts = np_r3_counts * operands[8]
    np_weight = (np_r1_counts + np_r2_counts + np_r3_counts) / np_lr_counts
    return np_cc + np_weight * _calc_proba_recursive(operands[-1])
''','''    mass = np_r1_counts * operands[4] + np_r2_counts * operands[6] + np_r3_counts * operands[8]
    kept = np.clip(np_l_counts - np_discounts, 0., None)
    return (kept + mass * _calc_proba_recursive(operands[-1])) / np_lr_counts
'''),('''    np_zero = np.zeros(len(operands[0]))
''',''))
sub('langmodel/smoother.py',('''    np_probas = data_slices[0].np_probas
    for data_slice in data_slices[1:]:
        np_probas = np.concatenate((np_probas, data_slice.np_probas))
    return np_probas
''','''    return np.concatenate([data_slice.np_probas for data_slice in data_slices])
'''))
sub('langmodel/ngrams_extraction.py',('''        if order == 1:
            ngrams_tokens = [[token] for token in token_list]
        else:
            ngrams_tokens = [ngram_tokens for ngram_tokens in zip(*[token_list[i:] for i in range(order)])]
        filtered_ngrams = [' '.join(ngram_tokens) for ngram_tokens in ngrams_tokens if _valid_tokens(ngram_tokens)]
        ngrams.extend([ngram.lower() for ngram in filtered_ngrams])
''','''        valid = [_valid_ngram_token(token) for token in token_list]
        for start in range(len(token_list) - order + 1):
            if all(valid[start:start + order]):
                ngrams.append(' '.join(token_list[start:start + order]).lower())
'''))
# lemmatizer
sub('normalization/lemmatizer.py',('''        if tag == Tag.ADJ:
            if word == 'better':
                return 'good', Suffix.COMPARATIVE
            if word == 'best':
                return 'good', Suffix.SUPERLATIVE
        if tag == Tag.ADV:
            if word == 'better':
                return 'well', Suffix.COMPARATIVE
            if word == 'best':
                return 'well', Suffix.SUPERLATIVE
            if word == "'":
                return "'s", None
''','''        known = {
            (Tag.ADJ, 'better'): ('good', Suffix.COMPARATIVE),
            (Tag.ADJ, 'best'): ('good', Suffix.SUPERLATIVE),
            (Tag.ADV, 'better'): ('well', Suffix.COMPARATIVE),
            (Tag.ADV, 'best'): ('well', Suffix.SUPERLATIVE),
            (Tag.ADV, "'"): ("'s", None),
        }.get((tag, word))
        if known is not None:
            return known
'''),('''        if tag == Tag.VERB:
            tokens_before = ['i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should']
        else:
            tokens_before = [stem + ending for ending in endings]
        candidates = [stem + ending for ending in endings]
''','''        candidates = [stem + ending for ending in endings]
        tokens_before = candidates
        if tag == Tag.VERB:
            tokens_before = ('i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should')
'''))
sub('normalization/inflector.py',('''        try:
            # Irregular
            return self.__lemma_pp[lemma]
        except KeyError:
            # Special endings
            if len(lemma) > 2:
                if lemma[-3] in CONSONANTS and lemma.endswith('ie'):
                    return lemma + 'd'
            if len(lemma) > 1:
                if lemma[-2] in CONSONANTS and lemma[-1] == 'y':
                    return lemma[:-1] + 'ied'
                if lemma[-2] in CONSONANTS and lemma.endswith('e'):
                    return lemma + 'd'
                if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
                    best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
                    if best:
                        return best
            # Standard case
            return lemma + 'ed'
''','''        if lemma in self.__lemma_pp:
            return self.__lemma_pp[lemma]
        if lemma.endswith('ie') and lemma[-3:-2] and lemma[-3] in CONSONANTS:
            return lemma + 'd'
        if len(lemma) < 2:
            return lemma + 'ed'
        before, last = lemma[-2], lemma[-1]
        if before in CONSONANTS and last in 'ye':
            return lemma[:-1] + ('ied' if last == 'y' else 'ed')
        if before in VOWELS and last in CONSONANTS:
            return self.__lm.best_token(lemma + 'ed', lemma + last + 'ed') or lemma + 'ed'
        return lemma + 'ed'
'''))
sub('syntax/labelled_data.py',('''    # Extract & suffle samples
    labelled_sents = [LabelledSentence(idx, tuple_list) for idx, tuple_list in enumerate(token_tuple_lists)]
''','''    labelled_sents = _read(token_tuple_lists)
'''),('''    data_per_sample = [ptags_sample.training_mats for ptags_sample in ptags_samples]
    return [list(data) for data in zip(*data_per_sample)]
''','''    return _columns(ptags_samples)
'''),('''    data_per_sample = [trans_sample.training_mats for trans_sample in trans_samples]
    return [list(data) for data in zip(*data_per_sample)]
''','''    return _columns(trans_samples)
'''),('''def extract_ptags''','''def _read(token_tuple_lists):
    return [LabelledSentence(idx, tuple_list) for idx, tuple_list in enumerate(token_tuple_lists)]


def _columns(samples):
    return [list(column) for column in zip(*(sample.training_mats for sample in samples))]


def extract_ptags'''),('''        result = []
        for idx, token in enumerate(self.tokens):
            if self.deps[idx] != Dep.NODEP:
                result.append(idx)
        return result
''','''        return [idx for idx, dep in enumerate(self.deps) if dep != Dep.NODEP]
'''),('''        for _, child_idx in self.tree.children(token_idx):
            if child_idx < max_idx:
                return True
        return False
''','''        return any(child_idx < max_idx for _, child_idx in self.tree.children(token_idx))
'''))
sub('syntax/chunker.py',('''    nouns = [noun]

    def _chunk_recursive(_noun):
        for _cnoun in compound_nouns.get(_noun, []):
            nouns.append(_cnoun)
            _chunk_recursive(_cnoun)

    _chunk_recursive(noun)
    nouns.sort(key=lambda x: x.idx)
    return cfg.COMPOUND_JOIN.join([n.lemma for n in nouns])
''','''    nouns = [noun]
    for found in nouns:  # The list grows while it is read
        nouns.extend(compound_nouns.get(found, []))
    return cfg.COMPOUND_JOIN.join(n.lemma for n in sorted(nouns, key=lambda n: n.idx))
'''))
sub('syntax/training_samples.py',('''    empty_arrays = _fill_columns([[] for _ in range(cfg.PADDED_SENT_LENGTH - len(matrix))],
                                 cfg.PADDED_WORD_LENGTH)
    padded_arrays = _fill_columns(matrix[:cfg.PADDED_SENT_LENGTH], cfg.PADDED_WORD_LENGTH)
    return np.concatenate((padded_arrays, empty_arrays))
''','''    result = np.zeros((cfg.PADDED_SENT_LENGTH, cfg.PADDED_WORD_LENGTH), dtype=np.int32)
    for row, codes in zip(result, matrix):
        row[:] = _pad_array(codes, cfg.PADDED_WORD_LENGTH)
    return result
'''),('''        _mask = [False] * cfg.PADDED_SENT_LENGTH
        _mask[_idx] = True
        return _mask
''','''        return [i == _idx for i in range(cfg.PADDED_SENT_LENGTH)]
'''))

sub('syntax/models.py',('import tensorflow as tf\n','import tensorflow as tf\nfrom tensorflow.keras import layers as L\nfrom tensorflow.keras.callbacks import EarlyStopping\n'),
('tf.keras.layers.Input(shape=(cfg.PADDED_SENT_LENGTH,), dtype=tf.int32)','self._codes_input()'),
('''tf.keras.layers.Input(shape=(cfg.PADDED_SENT_LENGTH, cfg.WORD_VECTOR_SIZE),
                                            dtype=tf.float32)''','L.Input(shape=(cfg.PADDED_SENT_LENGTH, cfg.WORD_VECTOR_SIZE), dtype="float32")'),
('''tf.keras.callbacks.EarlyStopping(''','EarlyStopping('),
('''    def _learn(self''','''    @staticmethod
    def _codes_input():
        return L.Input(shape=(cfg.PADDED_SENT_LENGTH,), dtype=tf.int32)

    @staticmethod
    def _best(seqs):
        return [list(codes) for codes in np.argmax(np.asarray(seqs), axis=-1)]

    def _learn(self'''),
('''        if validation_split:
            metric = 'val_accuracy'
        else:
            metric = 'accuracy'
''','''        metric = 'val_accuracy' if validation_split else 'accuracy'
'''),
('return [[np.argmax(probas) for probas in seq] for seq in seqs]','return self._best(seqs)'),
('return [np.argmax(probas) for probas in batch_probas]','return list(np.argmax(batch_probas, axis=1))'),
('tf.keras.layers.concatenate([char_model.output, word_inputs, tag_embed, dep_embed], axis=2)','L.Concatenate(axis=2)([char_model.output, word_inputs, tag_embed, dep_embed])'),
('tf.keras.layers.concatenate([timestep1, timestep2], axis=1)','tf.concat([timestep1, timestep2], axis=1)'),
('''        history = self._model.fit([np.array(arg) for arg in args], np.array(train_y), validation_split=validation_split,
                                  batch_size=batch_size, epochs=epochs, callbacks=[callback])
''','''        options = dict(batch_size=batch_size, epochs=epochs, validation_split=validation_split, callbacks=[callback])
        history = self._model.fit(x=[np.asarray(arg) for arg in args], y=np.asarray(train_y), **options)
'''))
sub('syntax/charset.py',('''        try:
            return self.__char_code[char]
        except KeyError:
            return self.__unk_code
''','''        return self.__char_code.get(char, self.__unk_code)
'''))
sub('syntax/wordset.py',('''        try:
            return self.__word_vector[word.lower()]
        except KeyError:
            return self.__zero_vector
''','''        key = word.lower()
        return self.__word_vector[key] if key in self.__word_vector else self.__zero_vector
'''),('''                values = line.split()
                word = values[0]
                wordvec = values[1:]
                if language_model.has_ngram(word):
                    word_vector[word] = np.asarray(wordvec, dtype=np.float32)
''','''                word, *numbers = line.split()
                if not language_model.has_ngram(word):
                    continue
                word_vector[word] = np.array([float(number) for number in numbers], dtype=np.float32)
'''))
sub('utils/files.py',('''    pickle.dump(python_object, open(file_path(*args), 'wb'))
''','''    with open(file_path(*args), 'wb') as pkl_file:
        pkl_file.write(pickle.dumps(python_object))
'''),('''    path = cfg.DATA_DIR
    for arg in args:
        path /= arg
    return str(path)
''','''    return str(cfg.DATA_DIR.joinpath(*args))
'''),('''        return {key: value for key, value in [line.strip().split('\\t') for line in txt_file]}''','''        return dict(line.strip().split('\\t') for line in txt_file)'''))
sub('normalization/standardizer.py',('''        start_mid_end = _split_token(token, ['our', 'or'], ['ing', 'ed', 's', ''])
        if start_mid_end is not None:
            start, _, end = start_mid_end
            if len(start) > 2:
                best_lemma = self.__lm.best_ngram(start + 'or', start + 'our')
                if best_lemma is not None:
                    return best_lemma + end
''','''        split = self.__long_split(token, ['our', 'or'], ['ing', 'ed', 's', ''])
        if split:
            best = self.__lm.best_ngram(split[0] + 'or', split[0] + 'our')
            if best is not None:
                return best + split[2]
'''),('''    def __call__(self, token):''','''    @staticmethod
    def __long_split(token, middles, endings):
        parts = _split_token(token, middles, endings)
        return parts if parts and len(parts[0]) > 2 else None

    def __call__(self, token):'''),("token.find('ae') > -1","'ae' in token"))
