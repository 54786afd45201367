# Reading below a value: subV/subE(mk, mv, sl, path, v, o, n) is what following the n keys path[o], path[o+1], ... from v gives,
# where mk, mv, sl hold the keys and values of all objects and the elements of all lists.
logic subV([int][string]bool, [int][string]any, [int][int]any, [int]string, any, int, int) any
logic subE([int][string]bool, [int][string]any, [int][int]any, [int]string, any, int, int) bool
logic atStep(int) bool
axiom sub-step{atStep} forall o: int :: {atStep(o)} atStep(o)
macro listItem(sl: [int][int]any, v: any, i: int): any = sl[base(as(v,"[]any"))][off(as(v,"[]any")) + i]
axiom sub-end{subE} forall mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; v: any; o, n: int :: {subE(mk,mv,sl,p,v,o,n)} n <= 0 ==> !subE(mk,mv,sl,p,v,o,n) && subV(mk,mv,sl,p,v,o,n) == v
axiom sub-object{subE} forall mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; v: any; o, n: int :: {subE(mk,mv,sl,p,v,o,n), atStep(o)} n > 0 && is(v,"map[string]any") ==> (if mk[as(v,"map[string]any")][p[o]] then (subE(mk,mv,sl,p,v,o,n) <==> subE(mk,mv,sl,p,mv[as(v,"map[string]any")][p[o]],o+1,n-1)) && subV(mk,mv,sl,p,v,o,n) == subV(mk,mv,sl,p,mv[as(v,"map[string]any")][p[o]],o+1,n-1) else !subE(mk,mv,sl,p,v,o,n) && subV(mk,mv,sl,p,v,o,n) == nil)
axiom sub-list{subE} forall mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; v: any; o, n: int :: {subE(mk,mv,sl,p,v,o,n), atStep(o)} n > 0 && is(v,"[]any") ==> (if !isInteger(p[o]) then subE(mk,mv,sl,p,v,o,n) else if 0 <= integerOf(p[o]) && integerOf(p[o]) < len(as(v,"[]any")) then (subE(mk,mv,sl,p,v,o,n) <==> subE(mk,mv,sl,p,listItem(sl,v,integerOf(p[o])),o+1,n-1)) && subV(mk,mv,sl,p,v,o,n) == subV(mk,mv,sl,p,listItem(sl,v,integerOf(p[o])),o+1,n-1) else !subE(mk,mv,sl,p,v,o,n) && subV(mk,mv,sl,p,v,o,n) == nil)
axiom sub-primitive{subE} forall mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; v: any; o, n: int :: {subE(mk,mv,sl,p,v,o,n), atStep(o)} n > 0 && !is(v,"map[string]any") && !is(v,"[]any") ==> subE(mk,mv,sl,p,v,o,n)
macro below(p: [int]string, v: any, o: int, n: int): any = subV(mkh("map[string]any"), mvh("map[string]any"), eh("any"), p, v, o, n)
macro belowFails(p: [int]string, v: any, o: int, n: int): bool = subE(mkh("map[string]any"), mvh("map[string]any"), eh("any"), p, v, o, n)

func input/record.GetSubValue ! value path -> v err
  prop C13
  ensures[follows-the-path] atStep(off(path)) && (err == nil <==> !belowFails(elems(path), value, off(path), len(path)))
  ensures[value-at-the-path] atStep(off(path)) && (err == nil ==> v == below(elems(path), value, off(path), len(path)))
  ensures[no-value-on-error] err != nil ==> v == nil
  modifies nothing

func (*input.JsonRecord).getSubValue ! r data path -> v err
  prop C13
  ensures[follows-the-path] atStep(off(path)) && (err == nil <==> !belowFails(elems(path), data, off(path), len(path)))
  ensures[value-at-the-path] atStep(off(path)) && (err == nil ==> v == below(elems(path), data, off(path), len(path)))
  ensures[no-value-on-error] err != nil ==> v == nil
  modifies nothing

func (*input.JsonRecord).All ! r -> m err
  prop C13
  ensures[complete-record] err == nil && m == r.data
  modifies nothing

func (*input.JsonRecord).Get ! r path -> v err
  prop C13
  ensures[empty-path] path == "" ==> err != nil
  ensures[descends-into-the-record] path != "" ==> (err == nil <==> !belowFails(splitElems(path, "."), box(r.data), 0, splitCount(path, ".")))
  ensures[value-at-the-path] err == nil ==> v == below(splitElems(path, "."), box(r.data), 0, splitCount(path, "."))
  modifies nothing

func (*input.JsonRecord).Position ! r -> p
  prop C11
  ensures[own-position] p == r.position
  opt pure

func input.NewJsonRecord ! config data position -> r
  prop C11 C13
  ensures[own-data] r != nil && fresh(r) && r.data == data && r.position == position && r.config == config
  modifies nothing

# XML: the nodes an expression selects and the value it evaluates to (assumed of the XPath library), and what they mean for a configured property.
logic qCount(int, int) int
logic qNode(int, int, int) *github.com/antchfx/xmlquery.Node
logic xpVal(int, int) any
extern github.com/antchfx/xmlquery.QuerySelectorAll ! top expr -> r
  requires[expression] expr != nil
  ensures len(r) == qCount(expr, top) && qCount(expr, top) >= 0 && off(r) == 0 && (len(r) > 0 ==> fresh(r)) && forall i: int :: {elems(r)[i]} 0 <= i && i < len(r) ==> elems(r)[i] == qNode(expr, top, i) && elems(r)[i] != nil
  opt pure
logic navOf(int) int
extern github.com/antchfx/xmlquery.CreateXPathNavigator ! n -> r
  ensures r != nil && navOf(r) == n
  opt pure
# xpLock: the lock of the property that owns the expression; evaluating changes the state of the expression
logic xpLock(int) int
extern (*github.com/antchfx/xpath.Expr).Evaluate ! e nav -> r
  requires[expression] e != nil
  requires[one-at-a-time] locked[xpLock(e)]
  ensures r == xpVal(e, navOf(as(nav, "*github.com/antchfx/xmlquery.NodeNavigator"))) && (is(r, "*github.com/antchfx/xpath.NodeIterator") ==> as(r, "*github.com/antchfx/xpath.NodeIterator") != nil)
  opt pure
extern (*github.com/antchfx/xpath.Expr).String ! e -> r
  requires[expression] e != nil
  opt pure
extern (*github.com/antchfx/xpath.NodeIterator).MoveNext ! i -> r
  requires[iterator] i != nil
extern (*github.com/antchfx/xpath.NodeIterator).Current ! i -> r
  requires[iterator] i != nil
  ensures is(r, "*github.com/antchfx/xmlquery.NodeNavigator")
  opt pure
extern (*github.com/antchfx/xmlquery.NodeNavigator).Current ! i -> r
  requires[navigator] i != nil
  opt pure
extern (*github.com/antchfx/xmlquery.Node).OutputXML ! n self -> r
  requires[node] n != nil
  opt pure
extern math.IsNaN ! f -> r
  ensures r <==> !flteq(f, f)
  opt pure

# world(...): the settings of all properties and the available parsers
logic world([int]string, [int]*github.com/antchfx/xpath.Expr, [int]*input.XmlPropertyConfig, [int][]*input.XmlPropertyConfig, [int]string, [int]string, [int][int]*input.XmlPropertyConfig, [string]bool, [string]parser.Parser) int
logic wTy(int) [int]string
logic wEx(int) [int]*github.com/antchfx/xpath.Expr
logic wIt(int) [int]*input.XmlPropertyConfig
logic wPr(int) [int][]*input.XmlPropertyConfig
logic wNm(int) [int]string
logic wPs(int) [int]string
logic wPe(int) [int][int]*input.XmlPropertyConfig
logic wPk(int) [string]bool
logic wPv(int) [string]parser.Parser
axiom world{world} forall ty: [int]string; ex: [int]*github.com/antchfx/xpath.Expr; it: [int]*input.XmlPropertyConfig; pr: [int][]*input.XmlPropertyConfig; nm: [int]string; ps: [int]string; pe: [int][int]*input.XmlPropertyConfig; pk: [string]bool; pv: [string]parser.Parser :: {world(ty,ex,it,pr,nm,ps,pe,pk,pv)} wTy(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == ty && wEx(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == ex && wIt(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == it && wPr(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == pr && wNm(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == nm && wPs(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == ps && wPe(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == pe && wPk(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == pk && wPv(world(ty,ex,it,pr,nm,ps,pe,pk,pv)) == pv
macro worldOf(r: *input.XmlRecord): int = world(fh("input.XmlPropertyConfig","Type"), fh("input.XmlPropertyConfig","CompiledXPath"), fh("input.XmlPropertyConfig","Items"), fh("input.XmlPropertyConfig","Properties"), fh("input.XmlPropertyConfig","Name"), fh("input.XmlPropertyConfig","Parser"), eh("*input.XmlPropertyConfig"), keys(r.parsers), vals(r.parsers))
# the parser of a property accepts the evaluated result / its value
macro parserOf(w: int, c: int): any = wPv(w)[wPs(w)[c]]
macro asInt64(f: float): bool = flteq(f, f) && !(f < fltlit("-9223372036854775808")) && f < fltlit("9223372036854775808")
macro primFails(w: int, c: int, v: any): bool = !wPk(w)[wPs(w)[c]] || (if is(v,"string") then unparsable(parserOf(w,c), as(v,"string")) else if is(v,"float64") then !is(parserOf(w,c),"*parser.Float") && !(is(parserOf(w,c),"*parser.Integer") && asInt64(as(v,"float64"))) else if is(v,"bool") then !is(parserOf(w,c),"*parser.Boolean") else !is(v,"*github.com/antchfx/xpath.NodeIterator") || !is(parserOf(w,c),"*parser.String"))
macro isPrim(w: int, c: int, v: any, r: any): bool = if is(v,"string") then r == parsed(parserOf(w,c), as(v,"string")) else if is(v,"float64") then (if is(parserOf(w,c),"*parser.Float") then r == v else is(r,"int64") && as(r,"int64") == fltint(as(v,"float64"))) else if is(v,"bool") then r == v else is(r,"string")
macro leaf(w: int, node: int, c: int): any = xpVal(wEx(w)[c], node)
macro prop(w: int, c: int, i: int): *input.XmlPropertyConfig = wPe(w)[base(wPr(w)[c])][off(wPr(w)[c]) + i]
macro propCount(w: int, c: int): int = len(wPr(w)[c])
macro nodes(w: int, node: int, c: int): int = qCount(wEx(w)[c], node)
macro nodeAt(w: int, node: int, c: int, i: int): int = qNode(wEx(w)[c], node, i)

# fullFails(w, node, c): reading the whole property c of a node fails
logic fullFails(int, int, int) bool
axiom full-array{fullFails} forall w, node, c: int :: {fullFails(w,node,c)} wTy(w)[c] == "array" ==> (fullFails(w,node,c) <==> exists i: int :: {qNode(wEx(w)[c], node, i)} 0 <= i && i < nodes(w,node,c) && fullFails(w, nodeAt(w,node,c,i), wIt(w)[c]))
axiom full-object{fullFails} forall w, node, c: int :: {fullFails(w,node,c)} wTy(w)[c] == "object" ==> (fullFails(w,node,c) <==> nodes(w,node,c) > 1 || nodes(w,node,c) == 1 && exists a: int :: {wPe(w)[base(wPr(w)[c])][a]} off(wPr(w)[c]) <= a && a < off(wPr(w)[c]) + propCount(w,c) && fullFails(w, nodeAt(w,node,c,0), wPe(w)[base(wPr(w)[c])][a]))
axiom full-primitive{fullFails} forall w, node, c: int :: {fullFails(w,node,c)} wTy(w)[c] != "array" && wTy(w)[c] != "object" ==> (fullFails(w,node,c) <==> wTy(w)[c] != "primitive" || primFails(w, c, leaf(w,node,c)))
macro xmlValid(): bool = forall c: *input.XmlPropertyConfig :: {c.CompiledXPath} c != nil ==> !locked[&c.xpathLock] && xpLock(c.CompiledXPath) == &c.xpathLock && c.CompiledXPath != nil && (c.Type == "array" ==> c.Items != nil) && forall a: int :: {elems(c.Properties)[a]} off(c.Properties) <= a && a < off(c.Properties) + len(c.Properties) ==> elems(c.Properties)[a] != nil
macro parsersValid(p: map[string]parser.Parser): bool = forall k: string :: {keys(p)[k]} keys(p)[k] ==> vals(p)[k] != nil
# one level of the value of a property: a primitive is the value its parser gives, a list has one item per selected node, an object the configured names
macro valueShape(w: int, node: int, c: int, v: any): bool = if wTy(w)[c] == "array" then is(v,"[]any") && len(as(v,"[]any")) == nodes(w,node,c) else if wTy(w)[c] == "object" then (if nodes(w,node,c) == 0 then v == nil else is(v,"map[string]any") && forall k: string :: {keys(as(v,"map[string]any"))[k]} keys(as(v,"map[string]any"))[k] <==> exists a: int :: {wPe(w)[base(wPr(w)[c])][a]} off(wPr(w)[c]) <= a && a < off(wPr(w)[c]) + propCount(w,c) && wNm(w)[wPe(w)[base(wPr(w)[c])][a]] == k) else isPrim(w, c, leaf(w,node,c), v)

func (*input.XmlPropertyConfig).evaluateXPath ! c node -> r
  prop C14 C12
  requires[configured] c != nil && c.CompiledXPath != nil
  requires[not-held] !locked[&c.xpathLock] && xpLock(c.CompiledXPath) == &c.xpathLock
  ensures[released] !locked[&c.xpathLock]
  ensures[own-expression] r == xpVal(c.CompiledXPath, node) && (is(r, "*github.com/antchfx/xpath.NodeIterator") ==> as(r, "*github.com/antchfx/xpath.NodeIterator") != nil)
  modifies readPos, bufLeft

func (*input.XmlRecord).getAllValues ! r node c -> v err
  prop C14
  requires[configured] r != nil && c != nil && xmlValid() && parsersValid(r.parsers)
  ensures[errors-are-errors] err == nil <==> !fullFails(worldOf(r), node, c)
  ensures[own-node-and-parser] err == nil ==> valueShape(worldOf(r), node, c, v)
  modifies readPos, bufLeft

macro fullItems(w: int, ns: []*github.com/antchfx/xmlquery.Node, c: int, n: int): bool = forall a: int :: {elems(ns)[a]} off(ns) <= a && a < off(ns) + n ==> !fullFails(w, elems(ns)[a], c)
func (*input.XmlRecord).nodeIteratorToArray ! r nodes config -> v err
  prop C14
  requires[configured] r != nil && config != nil && config.Items != nil && xmlValid() && parsersValid(r.parsers)
  ensures[errors-are-errors] err == nil <==> fullItems(worldOf(r), nodes, config.Items, len(nodes))
  ensures[all-nodes] err == nil ==> len(v) == len(nodes) && v != nil
  ensures[own-nodes] err == nil && config.Items.Type == "primitive" ==> forall a: int :: {elems(v)[a]} off(v) <= a && a < off(v) + len(v) ==> isPrim(worldOf(r), config.Items, leaf(worldOf(r), nodes[a-off(v)], config.Items), elems(v)[a])
  invariant len(values) == len(nodes) && fresh(values)
  invariant fullItems(worldOf(r), nodes, config.Items, rangeindex + 1)
  invariant config.Items.Type == "primitive" ==> forall a: int :: {elems(values)[a]} off(values) <= a && a <= off(values) + rangeindex ==> isPrim(worldOf(r), config.Items, leaf(worldOf(r), nodes[a-off(values)], config.Items), elems(values)[a])
  modifies readPos, bufLeft

macro propListed(c: *input.XmlPropertyConfig, a: int): bool = off(c.Properties) <= a && a < off(c.Properties) + len(c.Properties)
func (*input.XmlRecord).nodeIteratorToObject ! r nodes config -> v err
  prop C14
  requires[configured] r != nil && config != nil && config.CompiledXPath != nil && xmlValid() && parsersValid(r.parsers) && (forall a: int :: {elems(config.Properties)[a]} propListed(config, a) ==> elems(config.Properties)[a] != nil)
  ensures[errors-are-errors] err == nil <==> len(nodes) == 0 || len(nodes) == 1 && forall a: int :: {elems(config.Properties)[a]} propListed(config, a) ==> !fullFails(worldOf(r), nodes[0], elems(config.Properties)[a])
  ensures[nothing-selected] err == nil && len(nodes) == 0 ==> v == nil
  ensures[all-properties] err == nil && len(nodes) > 0 ==> is(v, "map[string]any") && as(v, "map[string]any") != nil && forall k: string :: {keys(as(v,"map[string]any"))[k]} keys(as(v,"map[string]any"))[k] <==> exists a: int :: {elems(config.Properties)[a]} propListed(config, a) && elems(config.Properties)[a].Name == k
  ensures[own-properties] err == nil && len(nodes) > 0 ==> forall a: int :: {elems(config.Properties)[a]} propListed(config, a) && elems(config.Properties)[a].Type == "primitive" && (forall b: int :: {elems(config.Properties)[b]} propListed(config, b) && a < b ==> elems(config.Properties)[b].Name != elems(config.Properties)[a].Name) ==> isPrim(worldOf(r), elems(config.Properties)[a], leaf(worldOf(r), nodes[0], elems(config.Properties)[a]), vals(as(v,"map[string]any"))[elems(config.Properties)[a].Name])
  invariant values != nil && fresh(values)
  invariant forall a: int :: {elems(config.Properties)[a]} off(config.Properties) <= a && a <= off(config.Properties) + rangeindex ==> !fullFails(worldOf(r), nodes[0], elems(config.Properties)[a]) && keys(values)[elems(config.Properties)[a].Name]
  invariant forall k: string :: {keys(values)[k]} keys(values)[k] ==> exists a: int :: {elems(config.Properties)[a]} off(config.Properties) <= a && a <= off(config.Properties) + rangeindex && elems(config.Properties)[a].Name == k
  invariant forall a: int :: {elems(config.Properties)[a]} off(config.Properties) <= a && a <= off(config.Properties) + rangeindex && elems(config.Properties)[a].Type == "primitive" && (forall b: int :: {elems(config.Properties)[b]} a < b && b <= off(config.Properties) + rangeindex ==> elems(config.Properties)[b].Name != elems(config.Properties)[a].Name) ==> isPrim(worldOf(r), elems(config.Properties)[a], leaf(worldOf(r), nodes[0], elems(config.Properties)[a]), vals(values)[elems(config.Properties)[a].Name])
  modifies readPos, bufLeft

func (*input.XmlRecord).All ! r -> v err
  prop C14
  requires[configured] r != nil && r.config != nil && xmlValid() && parsersValid(r.parsers) && (forall a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a < off(r.config.Properties) + len(r.config.Properties) ==> elems(r.config.Properties)[a] != nil)
  ensures[errors-are-errors] err == nil <==> forall a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a < off(r.config.Properties) + len(r.config.Properties) ==> !fullFails(worldOf(r), r.node, elems(r.config.Properties)[a])
  ensures[all-properties] err == nil ==> v != nil && forall k: string :: {keys(v)[k]} keys(v)[k] <==> exists a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a < off(r.config.Properties) + len(r.config.Properties) && elems(r.config.Properties)[a].Name == k
  ensures[own-properties] err == nil ==> forall a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a < off(r.config.Properties) + len(r.config.Properties) && elems(r.config.Properties)[a].Type == "primitive" && (forall b: int :: {elems(r.config.Properties)[b]} a < b && b < off(r.config.Properties) + len(r.config.Properties) ==> elems(r.config.Properties)[b].Name != elems(r.config.Properties)[a].Name) ==> isPrim(worldOf(r), elems(r.config.Properties)[a], leaf(worldOf(r), r.node, elems(r.config.Properties)[a]), vals(v)[elems(r.config.Properties)[a].Name])
  invariant result != nil && fresh(result)
  invariant forall a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a <= off(r.config.Properties) + rangeindex ==> !fullFails(worldOf(r), r.node, elems(r.config.Properties)[a]) && keys(result)[elems(r.config.Properties)[a].Name]
  invariant forall k: string :: {keys(result)[k]} keys(result)[k] ==> exists a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a <= off(r.config.Properties) + rangeindex && elems(r.config.Properties)[a].Name == k
  invariant forall a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a <= off(r.config.Properties) + rangeindex && elems(r.config.Properties)[a].Type == "primitive" && (forall b: int :: {elems(r.config.Properties)[b]} a < b && b <= off(r.config.Properties) + rangeindex ==> elems(r.config.Properties)[b].Name != elems(r.config.Properties)[a].Name) ==> isPrim(worldOf(r), elems(r.config.Properties)[a], leaf(worldOf(r), r.node, elems(r.config.Properties)[a]), vals(result)[elems(r.config.Properties)[a].Name])
  modifies readPos, bufLeft

# xsFails/xsValue(...): following the n keys path[o], ... below property c of a node
logic xsFails(int, [int][string]bool, [int][string]any, [int][int]any, [int]string, int, int, int, int) bool
logic xsValue(int, [int][string]bool, [int][string]any, [int][int]any, [int]string, int, int, int, int) any
# xsKnown: the path leads to a text or misses; otherwise it ends at the whole property xsProp of the node xsNode
logic xsKnown(int, [int][string]bool, [int][string]any, [int][int]any, [int]string, int, int, int, int) bool
logic xsNode(int, [int][string]bool, [int][string]any, [int][int]any, [int]string, int, int, int, int) int
logic xsProp(int, [int][string]bool, [int][string]any, [int][int]any, [int]string, int, int, int, int) int
macro propAt(w: int, c: int, a: int): *input.XmlPropertyConfig = wPe(w)[base(wPr(w)[c])][a]
macro isPropAt(w: int, c: int, a: int): bool = off(wPr(w)[c]) <= a && a < off(wPr(w)[c]) + propCount(w,c)
axiom xs-whole{xsFails} forall w: int; mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; node, c, o, n: int :: {xsFails(w,mk,mv,sl,p,node,c,o,n)} n <= 0 && (wTy(w)[c] == "array" || wTy(w)[c] == "object") ==> (xsFails(w,mk,mv,sl,p,node,c,o,n) <==> fullFails(w,node,c)) && !xsKnown(w,mk,mv,sl,p,node,c,o,n) && xsNode(w,mk,mv,sl,p,node,c,o,n) == node && xsProp(w,mk,mv,sl,p,node,c,o,n) == c
axiom xs-list{xsFails} forall w: int; mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; node, c, o, n: int :: {xsFails(w,mk,mv,sl,p,node,c,o,n), atStep(o)} n > 0 && wTy(w)[c] == "array" ==> (if !isInteger(p[o]) then xsFails(w,mk,mv,sl,p,node,c,o,n) else if 0 <= integerOf(p[o]) && integerOf(p[o]) < nodes(w,node,c) then (xsFails(w,mk,mv,sl,p,node,c,o,n) <==> xsFails(w,mk,mv,sl,p,nodeAt(w,node,c,integerOf(p[o])),wIt(w)[c],o+1,n-1)) && xsValue(w,mk,mv,sl,p,node,c,o,n) == xsValue(w,mk,mv,sl,p,nodeAt(w,node,c,integerOf(p[o])),wIt(w)[c],o+1,n-1) && xsNode(w,mk,mv,sl,p,node,c,o,n) == xsNode(w,mk,mv,sl,p,nodeAt(w,node,c,integerOf(p[o])),wIt(w)[c],o+1,n-1) && xsProp(w,mk,mv,sl,p,node,c,o,n) == xsProp(w,mk,mv,sl,p,nodeAt(w,node,c,integerOf(p[o])),wIt(w)[c],o+1,n-1) && (xsKnown(w,mk,mv,sl,p,node,c,o,n) <==> xsKnown(w,mk,mv,sl,p,nodeAt(w,node,c,integerOf(p[o])),wIt(w)[c],o+1,n-1)) else !xsFails(w,mk,mv,sl,p,node,c,o,n) && xsValue(w,mk,mv,sl,p,node,c,o,n) == nil && xsKnown(w,mk,mv,sl,p,node,c,o,n))
axiom xs-object{xsFails} forall w: int; mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; node, c, o, n: int :: {xsFails(w,mk,mv,sl,p,node,c,o,n), atStep(o)} n > 0 && wTy(w)[c] == "object" ==> (nodes(w,node,c) == 0 ==> !xsFails(w,mk,mv,sl,p,node,c,o,n) && xsValue(w,mk,mv,sl,p,node,c,o,n) == nil && xsKnown(w,mk,mv,sl,p,node,c,o,n)) && (nodes(w,node,c) > 1 ==> xsFails(w,mk,mv,sl,p,node,c,o,n)) && (nodes(w,node,c) == 1 && (forall a: int :: {propAt(w,c,a)} isPropAt(w,c,a) ==> wNm(w)[propAt(w,c,a)] != p[o]) ==> !xsFails(w,mk,mv,sl,p,node,c,o,n) && xsValue(w,mk,mv,sl,p,node,c,o,n) == nil && xsKnown(w,mk,mv,sl,p,node,c,o,n)) && (forall a: int :: {propAt(w,c,a)} nodes(w,node,c) == 1 && isPropAt(w,c,a) && wNm(w)[propAt(w,c,a)] == p[o] && (forall b: int :: {propAt(w,c,b)} isPropAt(w,c,b) && b < a ==> wNm(w)[propAt(w,c,b)] != p[o]) ==> (xsFails(w,mk,mv,sl,p,node,c,o,n) <==> xsFails(w,mk,mv,sl,p,nodeAt(w,node,c,0),propAt(w,c,a),o+1,n-1)) && xsValue(w,mk,mv,sl,p,node,c,o,n) == xsValue(w,mk,mv,sl,p,nodeAt(w,node,c,0),propAt(w,c,a),o+1,n-1) && xsNode(w,mk,mv,sl,p,node,c,o,n) == xsNode(w,mk,mv,sl,p,nodeAt(w,node,c,0),propAt(w,c,a),o+1,n-1) && xsProp(w,mk,mv,sl,p,node,c,o,n) == xsProp(w,mk,mv,sl,p,nodeAt(w,node,c,0),propAt(w,c,a),o+1,n-1) && (xsKnown(w,mk,mv,sl,p,node,c,o,n) <==> xsKnown(w,mk,mv,sl,p,nodeAt(w,node,c,0),propAt(w,c,a),o+1,n-1)))
axiom xs-primitive{xsFails} forall w: int; mk: [int][string]bool; mv: [int][string]any; sl: [int][int]any; p: [int]string; node, c, o, n: int :: {xsFails(w,mk,mv,sl,p,node,c,o,n), atStep(o)} wTy(w)[c] != "array" && wTy(w)[c] != "object" ==> (if wTy(w)[c] != "primitive" then xsFails(w,mk,mv,sl,p,node,c,o,n) else if is(leaf(w,node,c),"string") then (xsFails(w,mk,mv,sl,p,node,c,o,n) <==> primFails(w,c,leaf(w,node,c)) || subE(mk,mv,sl,p,parsed(parserOf(w,c),as(leaf(w,node,c),"string")),o,n)) && xsValue(w,mk,mv,sl,p,node,c,o,n) == subV(mk,mv,sl,p,parsed(parserOf(w,c),as(leaf(w,node,c),"string")),o,n) && xsKnown(w,mk,mv,sl,p,node,c,o,n) else !xsKnown(w,mk,mv,sl,p,node,c,o,n) && xsNode(w,mk,mv,sl,p,node,c,o,n) == node && xsProp(w,mk,mv,sl,p,node,c,o,n) == c && (xsFails(w,mk,mv,sl,p,node,c,o,n) <==> n > 0 || primFails(w,c,leaf(w,node,c))))
macro xmlFails(r: *input.XmlRecord, p: [int]string, node: int, c: int, o: int, n: int): bool = xsFails(worldOf(r), mkh("map[string]any"), mvh("map[string]any"), eh("any"), p, node, c, o, n)
macro xmlKnown(r: *input.XmlRecord, p: [int]string, node: int, c: int, o: int, n: int): bool = xsKnown(worldOf(r), mkh("map[string]any"), mvh("map[string]any"), eh("any"), p, node, c, o, n)
macro xmlNode(r: *input.XmlRecord, p: [int]string, node: int, c: int, o: int, n: int): int = xsNode(worldOf(r), mkh("map[string]any"), mvh("map[string]any"), eh("any"), p, node, c, o, n)
macro xmlProp(r: *input.XmlRecord, p: [int]string, node: int, c: int, o: int, n: int): int = xsProp(worldOf(r), mkh("map[string]any"), mvh("map[string]any"), eh("any"), p, node, c, o, n)
macro xmlValue(r: *input.XmlRecord, p: [int]string, node: int, c: int, o: int, n: int): any = xsValue(worldOf(r), mkh("map[string]any"), mvh("map[string]any"), eh("any"), p, node, c, o, n)
# values known exactly: everything but freshly built lists, objects and non-text primitives, which have the shape of their property
func (*input.XmlRecord).getSubValue ! r node c path -> v err
  prop C13 C14
  requires[configured] r != nil && c != nil && xmlValid() && parsersValid(r.parsers)
  ensures[errors-are-errors] atStep(off(path)) && (err == nil <==> !xmlFails(r, elems(path), node, c, off(path), len(path)))
  ensures[value-at-the-path] atStep(off(path)) && (err == nil && xmlKnown(r, elems(path), node, c, off(path), len(path)) ==> v == xmlValue(r, elems(path), node, c, off(path), len(path)))
  ensures[whole-property] atStep(off(path)) && (err == nil && !xmlKnown(r, elems(path), node, c, off(path), len(path)) ==> valueShape(worldOf(r), xmlNode(r, elems(path), node, c, off(path), len(path)), xmlProp(r, elems(path), node, c, off(path), len(path)), v))
  invariant len(path) > 0 && forall a: int :: {elems(config.Properties)[a]} off(config.Properties) <= a && a <= off(config.Properties) + rangeindex ==> elems(config.Properties)[a].Name != path[0]
  modifies readPos, bufLeft

macro ownProp(r: *input.XmlRecord, a: int): bool = off(r.config.Properties) <= a && a < off(r.config.Properties) + len(r.config.Properties)
macro pName(r: *input.XmlRecord, a: int): string = elems(r.config.Properties)[a].Name
macro firstNamed(r: *input.XmlRecord, a: int, k: string): bool = ownProp(r, a) && pName(r, a) == k && forall b: int :: {elems(r.config.Properties)[b]} ownProp(r, b) && b < a ==> pName(r, b) != k
func (*input.XmlRecord).Get ! r path -> v err
  prop C13 C14
  requires[configured] r != nil && r.config != nil && xmlValid() && parsersValid(r.parsers) && (forall a: int :: {elems(r.config.Properties)[a]} ownProp(r, a) ==> elems(r.config.Properties)[a] != nil)
  ensures[empty-path] path == "" ==> err != nil
  ensures[unknown-property] (forall a: int :: {elems(r.config.Properties)[a]} ownProp(r, a) ==> pName(r, a) != splitPart(path, ".", 0)) ==> err != nil
  ensures[descends-into-the-record] path != "" ==> forall a: int :: {elems(r.config.Properties)[a]} firstNamed(r, a, splitPart(path, ".", 0)) ==> (err == nil <==> !xmlFails(r, splitElems(path, "."), r.node, elems(r.config.Properties)[a], 1, splitCount(path, ".") - 1))
  ensures[value-at-the-path] path != "" ==> forall a: int :: {elems(r.config.Properties)[a]} err == nil && firstNamed(r, a, splitPart(path, ".", 0)) && xmlKnown(r, splitElems(path, "."), r.node, elems(r.config.Properties)[a], 1, splitCount(path, ".") - 1) ==> v == xmlValue(r, splitElems(path, "."), r.node, elems(r.config.Properties)[a], 1, splitCount(path, ".") - 1)
  ensures[whole-property] path != "" ==> forall a: int :: {elems(r.config.Properties)[a]} err == nil && firstNamed(r, a, splitPart(path, ".", 0)) && !xmlKnown(r, splitElems(path, "."), r.node, elems(r.config.Properties)[a], 1, splitCount(path, ".") - 1) ==> valueShape(worldOf(r), xmlNode(r, splitElems(path, "."), r.node, elems(r.config.Properties)[a], 1, splitCount(path, ".") - 1), xmlProp(r, splitElems(path, "."), r.node, elems(r.config.Properties)[a], 1, splitCount(path, ".") - 1), v)
  invariant forall a: int :: {elems(r.config.Properties)[a]} off(r.config.Properties) <= a && a <= off(r.config.Properties) + rangeindex ==> pName(r, a) != splitPart(path, ".", 0)
  modifies readPos, bufLeft

func (*input.XmlRecord).Position ! r -> p
  prop C11
  ensures[own-position] p == r.position
  opt pure

func input.NewXmlRecord ! config node parsers position -> r err
  prop C11 C13 C14
  ensures[own-data] err == nil && r != nil && fresh(r) && r.node == node && r.parsers == parsers && r.position == position && r.config == config
  modifies nothing
