// Where recordings go (C11). Names are slash-separated paths, cleaned lexically (package path).

uf pclean(string) string
uf pdir(string) string
uf pext(string) string
// path.Join of other than two non-empty names
uf pjoin(ref) string
// d, cleaned, is a directory and f, cleaned, is lexically below it
uf inDir(d string, f string) bool
// the number written in s, as a Go integer literal of at most 32 bits
uf isnum(string) bool
uf numval(string) int
uf isNE(ref) bool
uf isEx(ref) bool

// these facts of package path are also tested against the library, see the replay of C11
axiom (s string) pclean(pclean(s)) == pclean(s)
axiom (s string) pclean(pdir(s)) == pdir(s)
axiom (s string) pclean(s) != "" && pdir(s) != ""
axiom (d string, f string) pext(f) == ".webm" ==> inDir(pclean(d), pclean(pclean(d) + ("/" + pclean("/" + f))))
axiom (d string, f string) pclean(d + pclean("/" + f)) == pclean(d + ("/" + pclean("/" + f)))
axiom (s string) pext(s) == ".webm" ==> pext(pclean(s)) == ".webm"
axiom (a string, s string) pext(s) == ".webm" ==> pext(a + s) == ".webm"
axiom (d string, f string) inDir(d, f) ==> pdir(f) == d || inDir(d, pdir(f))

// names nothing exists at
ghost absent [string]bool
// things created other than by opening a file: directories, files
ghost made int

extern path.Clean(p) (r)
  modifies nothing
  ensures r == pclean(p)
extern filepath.Clean(p) (r)
  modifies nothing
  ensures r == pclean(p)
extern path.Dir(p) (r)
  modifies nothing
  ensures r == pdir(p)
extern filepath.Dir(p) (r)
  modifies nothing
  ensures r == pdir(p)
extern path.Ext(p) (r)
  modifies nothing
  ensures r == pext(p)
  ensures len(r) <= len(p)
extern filepath.Ext(p) (r)
  modifies nothing
  ensures r == pext(p)
  ensures len(r) <= len(p)
extern path.Join(elem) (r)
  modifies nothing
  ensures r == (len(elem) == 2 && elem[0] != "" && elem[1] != "" ? pclean(elem[0] + ("/" + elem[1])) : pjoin(array(elem)))
extern filepath.Join(elem) (r)
  modifies nothing
  ensures r == (len(elem) == 2 && elem[0] != "" && elem[1] != "" ? pclean(elem[0] + ("/" + elem[1])) : pjoin(array(elem)))

extern os.Stat(name) (fi, err)
  modifies nothing
  ensures isNE(ref(err)) ==> err != nil
  ensures isNE(ref(err)) <==> name == "" || absent[pclean(name)]
extern os.Lstat(name) (fi, err)
  modifies nothing
  ensures isNE(ref(err)) ==> err != nil
  ensures isNE(ref(err)) ==> name == "" || absent[pclean(name)]
extern os.IsNotExist(err) (r)
  modifies nothing
  ensures r <==> err != nil && isNE(ref(err))
// (nothing here wraps the errors of package os)
extern errors.Is(err, target) (r)
  modifies nothing
  ensures err == target && err != nil ==> r
  ensures err == nil && target != nil ==> !r
  ensures target == os.ErrNotExist || target == fs.ErrNotExist ==> (r <==> err != nil && isNE(ref(err)))
  ensures target == os.ErrExist || target == fs.ErrExist ==> (r <==> err != nil && isEx(ref(err)))
extern os.IsExist(err) (r)
  modifies nothing
  ensures r <==> err != nil && isEx(ref(err))
extern os.MkdirAll(name, perm) (err)
  modifies absent, made
  sets made = old(made) + 1
  ensures err == nil || isEx(ref(err)) ==> !absent[pclean(name)]
extern strconv.ParseUint(s, base, bits) (r, err)
  modifies nothing
  ensures base == 0 && bits >= 32 && isnum(s) ==> err == nil && r == numval(s)
  ensures base == 0 && bits == 32 && err == nil ==> isnum(s)
  ensures bits == 32 && err == nil ==> r < 4294967296

pure wr(r) = as(r, *recorder.WebmRecorder)
func recorder.NewRecorder(ctx, cfg, file) (r, err)
  props C11 C12
  requires ctx != nil
  modifies absent, made
  oncall os.MkdirAll(name, perm) {C11} new-directories: perm == numval(cfg.DirFileMode) && isnum(cfg.DirFileMode) && (name == pclean(cfg.Directory) || inDir(pclean(cfg.Directory), name)) && absent[pclean(name)] && pext(file) == ".webm" && !cfg.WriteToDevNull
  ensures {C09 C11} made: err == nil ==> r != nil && istype(r, *recorder.WebmRecorder) && fresh(r)
  ensures {C11} extension: pext(file) != ".webm" ==> err != nil && made == old(made)
  ensures {C11} directory-missing: old(absent[pclean(cfg.Directory)]) ==> err != nil && made == old(made)
  ensures {C11} mode: !isnum(cfg.FileMode) ==> err != nil
  ensures {C11} inside: err == nil && !cfg.WriteToDevNull ==> inDir(pclean(cfg.Directory), wr(r).file) && pext(wr(r).file) == ".webm"
  ensures {C11} new: err == nil && !cfg.WriteToDevNull ==> absent[wr(r).file] && !absent[pclean(pdir(wr(r).file))]
  ensures {C11} null-device: err == nil && cfg.WriteToDevNull ==> wr(r).file == "/dev/null" && made == old(made)
  ensures {C11} file-mode: err == nil ==> isnum(cfg.FileMode) && wr(r).fileMode == numval(cfg.FileMode)
  ensures {C12} inv: err == nil ==> rInv(wr(r)) && !wr(r).closed
  cover ok: err == nil && !cfg.WriteToDevNull
  cover devnull: err == nil && cfg.WriteToDevNull
  cover refused: err != nil && pext(file) == ".webm"
