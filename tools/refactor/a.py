"""A large edit of the library which keeps its behaviour, for checking that the
monitors stay quiet on it (run in a scratch clone: python3 a.py)."""
def read(f): return open(f).read()
def write(f,s): open(f,'w').write(s)
def sub(f,*prs):
    s=read(f)
    for a,b in prs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    write(f,s)
def body(f,start,end,new):
    s=read(f)
    i=s.index(start); j=s.index(end,i)+len(end)
    write(f,s[:i]+new+s[j:])

SP='splitpattern/'
body(SP+'func.go','func (sp *FuncSplitPattern) FindMatches','\n}\n','''func (sp *FuncSplitPattern) FindMatches(s string) ([]Capture, error) {
	b := newCaptureList(s)
	for pos := 0; pos < len(s); {
		r, size := utf8.DecodeRuneInString(s[pos:])
		if sp.f(r) {
			b.match(pos, pos+size)
		}
		pos += size
	}
	return b.finish(), nil
}

// captureList collects the captures of a string.
type captureList struct {
	text     string
	done     int
	captures []Capture
}

func newCaptureList(s string) *captureList {
	return &captureList{text: s}
}

func (b *captureList) add(start, end int, isMatch bool) {
	b.captures = append(b.captures, Capture{
		Offsets: strutils.ByteOffsets{Start: start, End: end},
		IsMatch: isMatch,
	})
}

func (b *captureList) match(start, end int) {
	if start > b.done {
		b.add(b.done, start, false)
	}
	b.add(start, end, true)
	b.done = end
}

func (b *captureList) finish() []Capture {
	if len(b.text) == 0 {
		return []Capture{{}}
	}
	if b.done < len(b.text) {
		b.add(b.done, len(b.text), false)
	}
	return b.captures
}
''')
write(SP+'rune.go','''package splitpattern

import "unicode/utf8"

// RuneSplitPattern matches one rune.
type RuneSplitPattern struct{ r rune }

var _ SplitPattern = &RuneSplitPattern{}

// FromRune returns a new RuneSplitPattern.
func FromRune(r rune) *RuneSplitPattern { return &RuneSplitPattern{r: r} }

// FindMatches satisfies SplitPattern.
func (sp *RuneSplitPattern) FindMatches(s string) ([]Capture, error) {
	list := newCaptureList(s)
	pos := 0
	for pos < len(s) {
		r, n := utf8.DecodeRuneInString(s[pos:])
		if r == sp.r {
			list.match(pos, pos+n)
		}
		pos += n
	}
	return list.finish(), nil
}
''')
write(SP+'string.go','''package splitpattern

import "strings"

// StringSplitPattern matches a literal.
type StringSplitPattern struct{ s string }

var _ SplitPattern = &StringSplitPattern{}

// FromString returns a new StringSplitPattern.
func FromString(s string) *StringSplitPattern { return &StringSplitPattern{s: s} }

// FindMatches satisfies SplitPattern.
func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
	list := newCaptureList(s)
	if sp.s == "" {
		return list.finish(), nil
	}
	for pos := 0; ; {
		i := strings.Index(s[pos:], sp.s)
		if i < 0 {
			return list.finish(), nil
		}
		list.match(pos+i, pos+i+len(sp.s))
		pos += i + len(sp.s)
	}
}
''')
body(SP+'regexp.go','	prev := 0','	return splits, nil\n','''	list := newCaptureList(s)
	for _, m := range sp.r.FindAllStringIndex(s, -1) {
		list.match(m[0], m[1])
	}
	return list.finish(), nil
''')
body(SP+'regexp.go','	if len(s) == 0 {','	}\n\n','')
sub(SP+'regexp.go',('	"github.com/nlpodyssey/gotokenizers/strutils"\n',''))
body(SP+'regexp2.go','	prev := 0\n','	splits := make([]Capture, 0, len(s))\n','	list := newCaptureList(s)\n')
body(SP+'regexp2.go','	for _, match := range matches {','	return splits, nil\n','''	for _, match := range matches {
		list.match(positions[match.Index], positions[match.Index+match.Length])
	}

	return list.finish(), nil
''')
body(SP+'regexp2.go','	if len(s) == 0 {','	}\n\n','')
sub(SP+'regexp2.go',('	"github.com/nlpodyssey/gotokenizers/strutils"\n',''))
body(SP+'invertedpattern.go','	inverted := make','	return inverted, nil','''	var inverted []Capture
	for _, c := range captures {
		inverted = append(inverted, Capture{Offsets: c.Offsets, IsMatch: !c.IsMatch})
	}
	return inverted, nil''')

# pretokenizedstring
P='pretokenizedstring/pretokenizedstring.go'
body(P,'	// newSplits is at','	p.splits = newSplits\n','''	var newSplits []Split
	for index := range p.splits {
		current := p.splits[index]
		items := []Split{current}
		if current.Tokens == nil {
			var err error
			if items, err = splitFunc(index, current.NormalizedString); err != nil {
				return fmt.Errorf("split %d: %w", index, err)
			}
			items = withoutEmpty(items)
		}
		newSplits = append(newSplits, items...)
	}

	p.splits = newSplits
''')
sub(P,('	for _, split := range p.splits {\n		if split.Tokens != nil {\n			continue\n		}\n		err := normalize(split.NormalizedString)\n		if err != nil {\n			return err\n		}\n	}','''	for i := range p.splits {
		if p.splits[i].Tokens == nil {
			if err := normalize(p.splits[i].NormalizedString); err != nil {
				return fmt.Errorf("split %d: %w", i, err)
			}
		}
	}'''),
 ('		p.splits[i].Tokens = &tokens\n','		list := tokens\n		p.splits[i].Tokens = &list\n'),
 ('	return p.splits\n','	return append([]Split(nil), p.splits...)\n'),
 ('	if len(p.splits) == 0 {\n		return encodings.NewDefaultEncoding(), nil\n	}\n',''),
)
body(P,'		for _, token := range *split.Tokens {','			sequence = append','''		for _, token := range *split.Tokens {
			offsets := absoluteOffsets(split.NormalizedString, nsOffsets.Start, token.Offsets)

			sequence = append''')
open(P,'a').write('''
func withoutEmpty(items []Split) []Split {
	var kept []Split
	for _, item := range items {
		if !item.NormalizedString.IsEmpty() {
			kept = append(kept, item)
		}
	}
	return kept
}

func absoluteOffsets(
	ns *normalizedstring.NormalizedString,
	start int,
	offsets strutils.ByteOffsets,
) strutils.ByteOffsets {
	r, ok := ns.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(offsets.Start, offsets.End))
	if !ok {
		return offsets
	}
	return strutils.ByteOffsets{Start: start + r.Start(), End: start + r.End()}
}
''')
# encodings
E='encodings/encodings.go'
body(E,'	encoding := NewEncodingWithCapacity(len(tokens))','	return encoding\n','''	n := len(tokens)
	encoding := &Encoding{
		IDs:               make([]int, n),
		TypeIDs:           make([]int, n),
		Tokens:            make([]string, n),
		Words:             make([]int, n),
		Offsets:           make([]strutils.ByteOffsets, n),
		SpecialTokensMask: make([]int, n),
		AttentionMask:     make([]int, n),
	}
	for i, token := range tokens {
		encoding.IDs[i] = token.ID
		encoding.Tokens[i] = token.Token
		encoding.Offsets[i] = token.Offsets
		encoding.TypeIDs[i] = token.TypeID
		encoding.Words[i] = token.WordIndex
		encoding.AttentionMask[i] = 1
	}
	return encoding
''')
# strutils
body('strutils/strutils.go','	// One position for each byte','	return &BytesToRune','''	mapping := make([]int, len(sequence)+1)
	count := 0
	for start := 0; start < len(sequence); count++ {
		_, n := utf8.DecodeRuneInString(sequence[start:])
		for j := start; j < start+n; j++ {
			mapping[j] = count
		}
		start += n
	}
	mapping[len(sequence)] = count
	return &BytesToRune''')
sub('strutils/strutils.go',('package strutils\n','package strutils\n\nimport "unicode/utf8"\n'),('	return int8(s[index]) >= -0x40','	return utf8.RuneStart(s[index])'))
# vocabulary
V='vocabulary/vocabulary.go'
body(V,'	if _, ok := v.termToID[term]; ok {','	v.idToTerm[id] = term\n','''	if _, known := v.GetID(term); !known {
		v.set(term, v.freeID())
	}
''')
body(V,'	termToID := make(map[string]int, len(terms))','	return &Vocabulary{termToID: termToID, idToTerm: idToTerm}, nil','''	v := NewVocabulary()
	for term, id := range terms {
		if id == nil {
			return nil, fmt.Errorf("vocabulary: term %q has no ID", term)
		}
		v.set(term, *id)
	}
	return v, nil''')
sub(V,('	err = json.Unmarshal(rawData, &terms)\n	if err != nil {\n		return nil, err','	if err = json.Unmarshal(rawData, &terms); err != nil {\n		return nil, fmt.Errorf("vocabulary %s: %w", filename, err)'))
open(V,'a').write('''
func (v *Vocabulary) freeID() int {
	for id := len(v.termToID); ; id++ {
		if _, taken := v.idToTerm[id]; !taken {
			return id
		}
	}
}

func (v *Vocabulary) set(term string, id int) {
	v.termToID[term] = id
	v.idToTerm[id] = term
}
''')
# wordpiece
W='models/wordpiecemodel/wordpiecemodel.go'
body(W,'	if len([]rune(sequence)) > m.maxInputCharsPerWord {','	return subTokens, nil\n','''	positions := make([]int, 0, len(sequence)+1)
	for i := range sequence {
		positions = append(positions, i)
	}
	count := len(positions)
	positions = append(positions, len(sequence))

	if count > m.maxInputCharsPerWord {
		return m.unknown(sequence)
	}

	var tokens []models.Token
	for first := 0; first < count; {
		token, last, ok := m.longest(sequence, positions, first)
		if !ok {
			return m.unknown(sequence)
		}
		tokens = append(tokens, token)
		first = last
	}
	return tokens, nil
''')
sub(W,('	"unicode/utf8"\n',''))
open(W,'a').write('''
func (m *WordPieceModel) unknown(sequence string) ([]models.Token, error) {
	id, ok := m.vocab.GetID(m.unknownToken)
	if !ok {
		return nil, fmt.Errorf("wordpiece %q: %w", sequence, ErrUnknownTokenOutOfVocabulary)
	}
	offsets := strutils.ByteOffsets{Start: 0, End: len(sequence)}
	return []models.Token{{ID: id, Value: m.unknownToken, Offsets: offsets}}, nil
}

func (m *WordPieceModel) longest(sequence string, positions []int, first int) (models.Token, int, bool) {
	prefix := ""
	if first > 0 {
		prefix = m.continuingSubwordPrefix
	}
	start := positions[first]
	for last := len(positions) - 1; last > first; last-- {
		value := prefix + sequence[start:positions[last]]
		id, ok := m.vocab.GetID(value)
		if !ok {
			continue
		}
		return models.Token{
			ID:      id,
			Value:   value,
			Offsets: strutils.ByteOffsets{Start: start, End: positions[last]},
		}, last, true
	}
	return models.Token{}, 0, false
}
''')
# bpe
B='models/bpemodel/bpemodel.go'
body(B,'	if len(sequence) == 0 {\n','	return m.wordToTokens(word)\n','''	if sequence == "" {
		return []models.Token{}, nil
	}
	if m.dropout <= 0 {
		if word := m.cache.Get(sequence); word != nil {
			return m.wordToTokens(word)
		}
	}
	word, err := m.mergeWord(sequence)
	if err != nil {
		return nil, fmt.Errorf("bpe: %w", err)
	}
	tokens, err := m.wordToTokens(word)
	if err != nil {
		return nil, err
	}
	if m.dropout <= 0 {
		m.cache.Set(sequence, word)
	}
	return tokens, nil
''')
body(B,'func (m *BPEModel) tokenizeWithCache','\n}\n','')
body(B,'	var unk *Symbol\n','	word.MergeAll(','''	pending := 0 // bytes of the unknown symbol not added yet
	flush := func() {
		if pending > 0 {
			word.Add(unkTokenID, pending)
			pending = 0
		}
	}

	// Length in bytes of the characters dropped since the last symbol
	gap := 0

	for i, r := range w {
		_, byteLen := utf8.DecodeRuneInString(w[i:])
		id, found := m.vocab.GetID(m.decorate(string(r), i == 0, i+byteLen == len(w)))
		switch {
		case found:
			flush()
			word.Add(id, byteLen)
			(*word)[word.Len()-1].Gap, gap = gap, 0
		case !m.hasUnknownToken():
			gap += byteLen
		default:
			if !m.unknownFusionEnabled {
				flush()
			}
			pending += byteLen
		}
	}
	flush()

	word.MergeAll(''')
body(B,'func (m *BPEModel) hasContinuingSubwordPrefix','\n}\n','''func (m *BPEModel) decorate(s string, first, last bool) string {
	if !first {
		s = m.continuingSubwordPrefix + s
	}
	if last {
		s += m.endOfWordSuffix
	}
	return s
}
''')
body(B,'func (m *BPEModel) hasEndOfWordSuffix','\n}\n','')
body(B,'func (m *BPEModel) hasDropout','\n}\n','')
body('models/bpemodel/word.go','	// Filter out the removed','		i++\n	}\n','''	// Filter out the removed symbols
	kept := (*w)[:0]
	for _, symbol := range *w {
		if symbol.Length > 0 {
			kept = append(kept, symbol)
		}
	}
	*w = kept
''')
body('models/bpemodel/word.go','func (w *Word) removeSymbol','\n}\n','')
M='models/bpemodel/mergemap.go'
body(M,'		leftID, leftOK','		m.Set(leftID, rightID, MergeValue{Rank: rank, ID: mergedID})\n','''		ids := [3]int{}
		merged := ""
		if prefixLength >= 0 && prefixLength <= len(terms[1]) {
			merged = terms[0] + terms[1][prefixLength:]
		} else if _, known := vocab.GetID(terms[1]); known {
			return nil, fmt.Errorf("line %d: bad prefix length %d", lineCount, prefixLength)
		}
		for i, term := range []string{terms[0], terms[1], merged} {
			id, ok := vocab.GetID(term)
			if !ok {
				return nil, fmt.Errorf("line %d: token %q is out of vocabulary", lineCount, term)
			}
			ids[i] = id
		}

		m.Set(ids[0], ids[1], MergeValue{Rank: rank, ID: ids[2]})
''')
# bert normalizer
N='normalizers/bertnormalizer/bertnormalizer.go'
body(N,'	ns.Filter(func(r rune) bool {\n		return !(r == 0','		return r\n	})\n','''	changes := make([]normalizedstring.RuneChange, 0, ns.Len())
	leading := 0
	for _, r := range ns.Get() {
		if r == 0 || r == unicode.ReplacementChar || isControlCharacter(r) {
			if len(changes) == 0 {
				leading++
			} else {
				changes[len(changes)-1].Change--
			}
			continue
		}
		if isWhitespace(r) {
			r = ' '
		}
		changes = append(changes, normalizedstring.RuneChange{Rune: r})
	}
	ns.Transform(changes, leading)
''')
# normalizedstring
NS='normalizedstring/normalizedstring.go'
body(NS,'	alignments := make([]AlignmentRange, 0, len(s))\n\n	for runeIndex','	return alignments\n','''	alignments := make([]AlignmentRange, len(s))
	for pos := 0; pos < len(s); {
		_, size := utf8.DecodeRuneInString(s[pos:])
		cell := AlignmentRange{start: pos, end: pos + size}
		for i := pos; i < cell.end; i++ {
			alignments[i] = cell
		}
		pos = cell.end
	}
	return alignments
''')
body(NS,'	removed := 0\n	removedStart','	ns.Transform(transforms, removedStart)\n','''	var changes []RuneChange
	skipped := 0
	for _, r := range ns.normalized {
		switch {
		case keep(r):
			changes = append(changes, RuneChange{Rune: r})
		case len(changes) == 0:
			skipped++
		default:
			changes[len(changes)-1].Change--
		}
	}
	if skipped == 0 && len(changes) == utf8.RuneCountInString(ns.normalized) && utf8.ValidString(ns.normalized) {
		return
	}
	ns.Transform(changes, skipped)
''')
body(NS,'	runes := []rune(ns.normalized)\n','	ns.Transform(transforms, leadingSpaces)\n','''	text := []rune(ns.normalized)
	from, to := 0, len(text)
	for left && from < to && unicode.Is(unicode.White_Space, text[from]) {
		from++
	}
	for right && from < to && unicode.Is(unicode.White_Space, text[to-1]) {
		to--
	}
	if to-from == len(text) {
		return
	}
	changes := make([]RuneChange, 0, to-from)
	for _, r := range text[from:to] {
		changes = append(changes, RuneChange{Rune: r})
	}
	if len(changes) > 0 {
		changes[len(changes)-1].Change = to - len(text)
	}
	ns.Transform(changes, from)
''')
s=read(NS)
i=s.index('func countLeadingSpaces'); k=s.rfind('}\n\n',0,i)+2
write(NS,s[:k])
body(NS,'	offset := 0\n\n	captures, err := pattern','	return nil\n}','''	captures, err := pattern.FindMatches(ns.normalized)
	if err != nil {
		return fmt.Errorf("replace: %w", err)
	}
	inserted := make([]RuneChange, 0, len(content))
	for _, r := range content {
		inserted = append(inserted, RuneChange{Rune: r, Change: 1})
	}
	before := ns.Len()
	for _, capture := range captures {
		if !capture.IsMatch {
			continue
		}
		shift := ns.Len() - before
		rng := NewNormalizedRange(capture.Offsets.Start+shift, capture.Offsets.End+shift)
		ns.TransformRange(rng, inserted, utf8.RuneCountInString(ns.normalized[rng.start:rng.end]))
	}
	return nil
}''')
# split
body(NS,'	type SplitMatch struct {','	splits := make([]SplitMatch, 0, len(captures))','	splits := make([]splitMatch, 0, len(captures))')
sub(NS,('SplitMatch{','splitMatch{'))
body(NS,'		previousMatch := false\n		for i := len(captures) - 1','	case SplitDelimiterContiguous:','''		for i := 0; i < len(captures); i++ {
			piece := splitMatch{Offsets: captures[i].Offsets}
			// A delimiter directly before the next piece which is not one
			if captures[i].IsMatch && i+1 < len(captures) && !captures[i+1].IsMatch {
				i++
				piece.Offsets.End = captures[i].Offsets.End
			}
			splits = append(splits, piece)
		}
	case SplitDelimiterContiguous:''')
open(NS,'a').write('''
type splitMatch struct {
	Offsets      strutils.ByteOffsets
	ShouldRemove bool
}
''')
body(NS,'	result := make([]*NormalizedString, 0)\n','	return result, nil','''	return ns.pieces(splits)''')
open(NS,'a').write('''
func (ns *NormalizedString) pieces(splits []splitMatch) ([]*NormalizedString, error) {
	var result []*NormalizedString
	for _, split := range splits {
		if !split.ShouldRemove {
			piece, ok := ns.Slice(NewNormalizedRange(split.Offsets.Start, split.Offsets.End))
			if !ok {
				return nil, fmt.Errorf("NormalizedString: bad split %v", split.Offsets)
			}
			result = append(result, piece)
		}
	}
	return result, nil
}
''')
body(NS,'	newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-','		ns.normalized[normalizedRange.end:],\n	)\n','''	tail := ns.alignments[normalizedRange.end:]
	ns.alignments = append(append(append([]AlignmentRange{}, ns.alignments[:normalizedRange.start]...), alignments...), tail...)
	ns.normalized = ns.normalized[:normalizedRange.start] + normalizedBuilder.String() + ns.normalized[normalizedRange.end:]
''')
body(NS,'		newBytesCount := len(string','		normalizedBuilder.WriteRune(runeChange.Rune)\n','''		n, _ := normalizedBuilder.WriteRune(runeChange.Rune)
		for ; n > 0; n-- {
			alignments = append(alignments, align)
		}
''')
# pre-tokenizers
X='pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go'
sub(X,('	r *regexp2.Regexp\n','	pattern splitpattern.SplitPattern\n'),('{r: r}','{pattern: splitpattern.Invert(splitpattern.FromRegexp2(r))}'),('	splittingPattern := splitpattern.Invert(splitpattern.FromRegexp2(w.r))\n',''),('splittingPattern','w.pattern'))
X='pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go'
sub(X,("splitpattern.FromRune(' ')",'splitpattern.FromString(" ")'))
