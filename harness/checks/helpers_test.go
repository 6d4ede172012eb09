package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/NubeDev/bacnet/helpers/homedir"
	"github.com/NubeDev/bacnet/helpers/store"
	"pgregory.net/rapid"

	"verif/engine"
)

// ---------------------------------------------------------------- T08

// homeOp is a step with paths of home directories.
type homeOp struct {
	Kind string `json:"kind"` // home, reset, cache, expand, dir
	Text string `json:"text,omitempty"`
	On   bool   `json:"on,omitempty"`
}

// cacheOp is a step with a store of values.
type cacheOp struct {
	Kind string `json:"kind"` // set, get, wait
	Key  string `json:"key,omitempty"`
	Val  int    `json:"val,omitempty"`
	Ms   int    `json:"ms,omitempty"`
}

func genHomePath(t *rapid.T) string {
	part := rapid.StringMatching(`[a-zA-Z0-9 ._~\\-]{0,8}`)
	p := pick(t, "start", "", "~", "~/", "~\\", "~~", "~root", "/", "./~/", "x") + part.Draw(t, "p")
	for i := rapid.IntRange(0, 3).Draw(t, "parts"); i > 0; i-- {
		p += pick(t, "sep", "/", "//", "/./", "/../") + part.Draw(t, "q")
	}
	return p
}

func init() {
	engine.Add("T08", "home directories", "a path below the home directory is expanded", 4000, 200000,
		func(t *rapid.T) []homeOp {
			ops := []homeOp{{Kind: "home", Text: "/h"}, {Kind: "reset"}}
			for i := rapid.IntRange(1, 12).Draw(t, "ops"); i > 0; i-- {
				o := homeOp{Kind: pick(t, "kind", "home", "reset", "cache", "expand", "expand", "expand", "dir")}
				switch o.Kind {
				case "home":
					o.Text = "/" + rapid.StringMatching(`[a-z]{1,6}(/[a-z]{1,4})?/?`).Draw(t, "home")
				case "cache":
					o.On = rapid.Bool().Draw(t, "on")
				case "expand":
					o.Text = genHomePath(t)
				}
				ops = append(ops, o)
			}
			return ops
		},
		func(r *engine.Rec, ops []homeOp) error {
			old, had := os.LookupEnv("HOME")
			defer func() {
				os.Setenv("HOME", old)
				if !had {
					os.Unsetenv("HOME")
				}
				homedir.DisableCache = false
				homedir.Reset()
			}()
			homedir.DisableCache = false
			home, cached := "", ""
			dir := func() string {
				if homedir.DisableCache || cached == "" {
					cached = home
				}
				return cached
			}
			for i, o := range ops {
				switch o.Kind {
				case "home":
					home = o.Text
					os.Setenv("HOME", home)
				case "reset":
					homedir.Reset()
					cached = ""
				case "cache":
					homedir.DisableCache = !o.On
				case "dir":
					want := dir()
					if got, err := homedir.Dir(); err != nil || got != want {
						return fmt.Errorf("operation %d: the home directory is %q, %v instead of %q", i, got, err, want)
					}
				case "expand":
					p := o.Text
					got, err := homedir.Expand(p)
					switch {
					case p == "" || p[0] != '~':
						if err != nil || got != p {
							return fmt.Errorf("operation %d: %q becomes %q, %v", i, p, got, err)
						}
					case len(p) > 1 && p[1] != '/' && p[1] != '\\':
						r.Label("of another user")
						if err == nil {
							return fmt.Errorf("operation %d: %q becomes %q", i, p, got)
						}
					default:
						r.Hit(true)
						if want := filepath.Join(dir(), p[1:]); err != nil || got != want {
							return fmt.Errorf("operation %d: %q becomes %q, %v instead of %q", i, p, got, err, want)
						}
					}
				}
			}
			return nil
		}, engine.Single)

	engine.Add("T08", "kept values", "a value is looked up after it was set", 4000, 200000,
		func(t *rapid.T) []cacheOp {
			var ops []cacheOp
			for i := rapid.IntRange(1, 25).Draw(t, "ops"); i > 0; i-- {
				o := cacheOp{Kind: pick(t, "kind", "set", "set", "get", "get", "wait"), Key: pick(t, "key", "a", "b", "", "A", "a b"), Val: i}
				switch o.Kind {
				case "set":
					o.Ms = rapid.OneOf(rapid.IntRange(-1, 0), rapid.IntRange(1, 1000)).Draw(t, "ms")
				case "wait":
					o.Ms = rapid.OneOf(rapid.IntRange(0, 1000), rapid.IntRange(0, 100000000)).Draw(t, "ms")
				}
				ops = append(ops, o)
			}
			return ops
		},
		func(r *engine.Rec, ops []cacheOp) error {
			type val struct {
				v     int
				until time.Duration // -1 for ever
			}
			return engine.Bubble(r, func() error {
				h := store.Init()
				model := map[string]val{}
				start := time.Now()
				for i, o := range ops {
					now := time.Since(start)
					switch o.Kind {
					case "set":
						d, v := time.Duration(o.Ms)*ms, val{o.Val, -1}
						if o.Ms < 0 {
							d = -1
						} else if o.Ms > 0 {
							v.until = now + d
						}
						h.Set(o.Key, o.Val, d)
						model[o.Key] = v
					case "wait":
						time.Sleep(time.Duration(o.Ms) * ms)
					case "get":
						got, ok := h.Get(o.Key)
						m, known := model[o.Key]
						if known && m.until == now {
							continue // in this very moment
						}
						r.Hit(known)
						gone := m.until >= 0 && m.until < now
						r.LabelIf(known && gone, "expired")
						if want := known && !gone; ok != want || ok && got != m.v {
							return fmt.Errorf("operation %d: %q is %v, %v instead of %v, %v", i, o.Key, got, ok, m.v, want)
						}
					}
				}
				return nil
			})
		})
}
