// Asking for a configuration value (C24)

uf nparts(string, string) int
uf partOf(string, string, int) string
uf isDec(string) bool
uf decVal(string) int
extern strings.Split(s, sep) (r)
  modifies nothing
  ensures len(r) == nparts(s, sep) && nparts(s, sep) >= 1
  ensures forall k int :: 0 <= k && k < len(r) ==> r[k] == partOf(s, sep, k)
extern strconv.Atoi(s) (n, err)
  modifies nothing
  ensures err == nil <==> isDec(s)
  ensures err == nil ==> n == decVal(s)

// the text of a value, and what is printed
uf yamlList(ref, int) string
uf yamlMap(ref) string
uf yamlStr(string) string
uf yamlBool(bool) string
uf yamlInt(int) string
pure isText(t, v) = (istype(v, []any) ==> t == yamlList(array(as(v, []any)), len(as(v, []any)))) && (istype(v, map[string]any) ==> t == yamlMap(ref(as(v, map[string]any))))
  && (istype(v, string) ==> t == yamlStr(as(v, string))) && (istype(v, bool) ==> t == yamlBool(as(v, bool))) && (istype(v, int) ==> t == yamlInt(as(v, int)))
pure same(x, y) = (x == nil <==> y == nil) && (istype(x, []any) <==> istype(y, []any)) && (istype(x, map[string]any) <==> istype(y, map[string]any))
  && (istype(x, string) <==> istype(y, string)) && (istype(x, bool) <==> istype(y, bool)) && (istype(x, int) <==> istype(y, int))
  && (istype(x, []any) ==> as(x, []any) == as(y, []any)) && (istype(x, map[string]any) ==> as(x, map[string]any) == as(y, map[string]any))
  && (istype(x, string) ==> as(x, string) == as(y, string)) && (istype(x, bool) ==> as(x, bool) == as(y, bool)) && (istype(x, int) ==> as(x, int) == as(y, int))
ghost yamlOf any
ghost yamlData ref
ghost prints int
ghost printed string
extern yaml.Marshal(v) (b, err)
  modifies yamlOf, yamlData
  sets yamlOf = v
  sets yamlData = array(b)
  ensures fresh(b) && isText(string(b), v)
extern fmt.Print(a)
  modifies prints, printed
  sets prints = old(prints) + 1
  sets printed = len(a) == 1 && istype(a[0], string) ? as(a[0], string) : "?"

// step(i): the value the first i parts of the path lead to, nil when there is none or it is none of
// the kinds that are printed. A definition: recursive in i, over a tree nothing writes to.
uf step(int) any
pure shown(y) = istype(y, []any) || istype(y, map[string]any) || istype(y, string) || istype(y, bool) || istype(y, int)
pure byIndex(x, a) = istype(x, []any) && isDec(a) && 0 <= decVal(a) && decVal(a) < len(as(x, []any)) && shown(as(x, []any)[decVal(a)])
pure byName(x, a) = istype(x, map[string]any) && has(as(x, map[string]any), a) && shown(as(x, map[string]any)[a])
extern yaml.Unmarshal(d, p) (err)
  modifies *as(p, *any)
  ensures step(0) == *as(p, *any)
  ensures forall i int :: i >= 0 ==> allocated(step(i))
  ensures forall i int :: i >= 0 && byIndex(step(i), partOf(app.flags.dump, ".", i)) ==> step(i + 1) == as(step(i), []any)[decVal(partOf(app.flags.dump, ".", i))]
  ensures forall i int :: i >= 0 && byName(step(i), partOf(app.flags.dump, ".", i)) ==> step(i + 1) == as(step(i), map[string]any)[partOf(app.flags.dump, ".", i)]
  ensures forall i int :: i >= 0 && !byIndex(step(i), partOf(app.flags.dump, ".", i)) && !byName(step(i), partOf(app.flags.dump, ".", i)) ==> step(i + 1) == nil
  ensures forall i int, j int :: 0 <= i && i <= j && step(i) == nil ==> step(j) == nil // follows by induction

func app.dumpConfig()
  props C24
  noreturn
  logic n int
  local v any
  requires n == (app.flags.dump == "all" ? 0 : nparts(app.flags.dump, "."))
  requires {assumed} prints == 0
  modifies yamlOf, yamlData, prints, printed
  inv quiet: prints == 0
  inv ($i int) walked: $i >= 0 ==> same(v, step($i))
  oncall yaml.Unmarshal(d, p) the-configuration: array(d) == yamlData && istype(yamlOf, *config.Config) && as(yamlOf, *config.Config) == app.cfg
  oncall os.Exit(code) exists: code == 0 <==> step(n) != nil
  oncall os.Exit(code) the-value: code == 0 ==> prints == 1 && isText(printed, step(n))
  oncall os.Exit(code) nothing-else: code != 0 ==> prints == 0
  exits true: true
