# Text library contracts (assumed).
logic replaceAll(string, string, string) string
logic isInteger(string) bool
logic integerOf(string) int
logic isFloat(string) bool
logic floatOf(string) float
extern strings.ReplaceAll ! s old new -> r
  ensures r == replaceAll(s, old, new)
  opt pure
extern strconv.Atoi ! s -> n err
  ensures (err == nil <==> isInteger(s)) && (err == nil ==> n == integerOf(s))
  opt pure
extern strconv.ParseInt ! s b bits -> n err
  ensures b == 10 && bits == 64 ==> (err == nil <==> isInteger(s)) && (err == nil ==> n == integerOf(s))
  opt pure
extern strconv.ParseFloat ! s bits -> f err
  ensures bits == 64 ==> (err == nil <==> isFloat(s)) && (err == nil ==> f == floatOf(s))
  opt pure

# removed(s, chars, i): s without the characters of chars that start before byte i
logic removed(string, string, int) string
axiom removed-none{removed} forall s, c: string :: {removed(s, c, 0)} removed(s, c, 0) == s
axiom removed-one{removed} forall s, c: string; i: int :: {removed(s, c, strnext(c, i))} 0 <= i && i < len(c) ==> removed(s, c, strnext(c, i)) == replaceAll(removed(s, c, i), strofrune(strrune(c, i)), "")
macro without(s: string, chars: string): string = removed(s, chars, len(chars))

func util.RemoveCharacters ! value chars -> r
  prop C15
  ensures[exactly-the-characters] r == without(old(value), chars)
  invariant value == removed(pre(value), charactersToRemove, rangepos())
  opt pure

macro listedIn(v: string, list: []string): bool = exists a: int :: {elems(list)[a]} off(list) <= a && a < off(list) + len(list) && elems(list)[a] == v

func util.IsInArray ! value array -> r
  prop C15
  ensures[exactly-the-elements] r <==> listedIn(value, array)
  invariant forall a: int :: {elems(array)[a]} off(array) <= a && a <= off(array) + rangeindex ==> elems(array)[a] != value
  opt pure

func (*parser.Integer).Parse ! p value -> r err
  prop C15
  requires[configured] p.config != nil
  ensures[only-numbers] err == nil <==> isInteger(without(value, p.config.IgnoreCharacters))
  ensures[the-number] err == nil ==> is(r, "int64") && as(r, "int64") == integerOf(without(value, p.config.IgnoreCharacters))
  modifies nothing

macro floatText(p: *parser.Float, value: string): string = if p.config.DecimalSeparator == "." then without(value, p.config.IgnoreCharacters) else replaceAll(without(value, p.config.IgnoreCharacters), p.config.DecimalSeparator, ".")
func (*parser.Float).Parse ! p value -> r err
  prop C15
  requires[configured] p.config != nil
  ensures[only-numbers] err == nil <==> isFloat(floatText(p, value))
  ensures[the-number] err == nil ==> is(r, "float64") && as(r, "float64") == floatOf(floatText(p, value))
  modifies nothing

func (*parser.Boolean).Parse ! p value -> r err
  prop C15
  requires[configured] p.config != nil
  ensures[true-texts] listedIn(value, p.config.TrueValues) ==> err == nil && is(r, "bool") && as(r, "bool")
  ensures[false-texts] !listedIn(value, p.config.TrueValues) && listedIn(value, p.config.FalseValues) ==> err == nil && is(r, "bool") && !as(r, "bool")
  ensures[nothing-else] !listedIn(value, p.config.TrueValues) && !listedIn(value, p.config.FalseValues) ==> err != nil
  modifies nothing

func (*parser.String).Parse ! p value -> r err
  prop C15
  requires[configured] p.config != nil && (p.config.ConvertFromCharset != "" ==> p.encoding != nil)
  ensures[unchanged-without-charset] p.config.ConvertFromCharset == "" ==> err == nil && is(r, "string") && as(r, "string") == value
  ensures[text] err == nil ==> is(r, "string")
  modifies nothing

# A parser as a function of the text (assumed of every implementation: parsers keep no state)
logic parsed(any, string) any
logic unparsable(any, string) bool
iface parser.Parser.Parse ! p value -> r err
  ensures (err == nil <==> !unparsable(p, value)) && (err == nil ==> r == parsed(p, value))
  opt pure
logic splitCount(string, string) int
logic splitPart(string, string, int) string
logic splitElems(string, string) [int]string
extern strings.Split ! s sep -> r
  ensures len(r) == splitCount(s, sep) && splitCount(s, sep) >= 0 && (sep != "" ==> splitCount(s, sep) >= 1) && off(r) == 0 && fresh(r) && elems(r) == splitElems(s, sep) && forall i: int :: {elems(r)[i]} 0 <= i && i < len(r) ==> elems(r)[i] == splitPart(s, sep, i)
logic reSplitCount(ref, string) int
logic reSplitPart(ref, string, int) string
extern (*regexp.Regexp).Split ! re s n -> r
  ensures n < 0 ==> len(r) == reSplitCount(re, s) && reSplitCount(re, s) >= 0 && off(r) == 0 && fresh(r) && forall i: int :: {elems(r)[i]} 0 <= i && i < len(r) ==> elems(r)[i] == reSplitPart(re, s, i)

macro isRegexpSplit(p: *parser.Split): bool = p.config.DelimiterIsRegexp != nil && *p.config.DelimiterIsRegexp
macro pieces(p: *parser.Split, v: string): int = if isRegexpSplit(p) then reSplitCount(p.config.DelimiterRegexp, v) else splitCount(v, *p.config.Delimiter)
macro piece(p: *parser.Split, v: string, i: int): string = if isRegexpSplit(p) then reSplitPart(p.config.DelimiterRegexp, v, i) else splitPart(v, *p.config.Delimiter, i)
func (*parser.Split).Parse ! p value -> r err
  prop C15
  requires[configured] p.config != nil && p.config.Delimiter != nil && (isRegexpSplit(p) ==> p.config.DelimiterRegexp != nil)
  requires[parsers] forall k: string :: {keys(p.parsers)[k]} keys(p.parsers)[k] ==> vals(p.parsers)[k] != nil
  ensures[unknown-parser] !keys(p.parsers)[p.config.Parser] ==> err != nil
  ensures[all-pieces-in-order] err == nil ==> is(r, "[]any") && len(as(r,"[]any")) == pieces(p, value) && forall i: int :: {elems(as(r,"[]any"))[i]} off(as(r,"[]any")) <= i && i < off(as(r,"[]any")) + pieces(p, value) ==> elems(as(r,"[]any"))[i] == parsed(vals(p.parsers)[p.config.Parser], piece(p, value, i - off(as(r,"[]any")))) && !unparsable(vals(p.parsers)[p.config.Parser], piece(p, value, i - off(as(r,"[]any"))))
  ensures[piece-errors-are-errors] forall i: int :: {piece(p, value, i)} 0 <= i && i < pieces(p, value) && keys(p.parsers)[p.config.Parser] && unparsable(vals(p.parsers)[p.config.Parser], piece(p, value, i)) ==> err != nil
  invariant 0 <= i && i <= len(values)
  invariant off(parsedValues) == 0 && fresh(parsedValues) && len(parsedValues) == len(values)
  invariant forall j: int :: {elems(parsedValues)[j]} 0 <= j && j < i ==> elems(parsedValues)[j] == parsed(parser, elems(values)[j]) && !unparsable(parser, elems(values)[j])
  modifies nothing

func parser.NewString ! config -> r err
  prop C15
  requires[config] config != nil
  ensures[known-charset-only] err == nil ==> r != nil && r.config == config && (config.ConvertFromCharset != "" ==> r.encoding != nil)
  modifies nothing
