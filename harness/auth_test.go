package harness

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { modes["auth"] = driveAuth }

func bitsOf(a auth.Access) []int {
	bs := []int{}
	for i := 0; i < 32; i++ {
		if uint32(a)&(1<<i) != 0 {
			bs = append(bs, i)
		}
	}
	return bs
}
func permJ(p auth.Permission) obj { return obj{"s": p.Scope, "a": bitsOf(p.Access)} }
func permsJ(ps []auth.Permission) arr {
	r := arr{}
	for _, p := range ps {
		r = append(r, permJ(p))
	}
	return r
}
func roleJ(r auth.Role) obj {
	return obj{"al": permsJ(r.AllowedPermissions), "de": permsJ(r.DeniedPermissions)}
}
func groupJ(g auth.Group) arr {
	r := arr{}
	for _, x := range g.Roles {
		r = append(r, roleJ(x))
	}
	return r
}
func roleNames(gs ...auth.Group) []string {
	ns := []string{}
	for _, g := range gs {
		for _, ro := range g.Roles {
			ns = append(ns, ro.Name)
		}
	}
	return ns
}
func userJ(u auth.User) arr {
	r := arr{}
	for _, x := range u.Groups {
		r = append(r, groupJ(x))
	}
	return r
}

type chunks struct {
	name string
	t    *trace
	ev   arr
	n, k int
}

func (c *chunks) add(v any) {
	c.ev = append(c.ev, v)
	if len(c.ev) >= c.n {
		c.flush()
	}
}
func (c *chunks) flush() {
	if len(c.ev) > 0 {
		c.t.put(obj{"ev": c.ev})
		c.ev = nil
		if c.k++; c.k%500 == 0 { // TLC reads a file as a whole
			c.t.close()
			c.t = newTrace(fmt.Sprint(c.name, c.k/500))
		}
	}
}
func (c *chunks) close() {
	c.flush()
	c.t.close()
	if c.t.n == 0 && c.k > 0 { // the file before it was just full
		os.Remove(c.t.f.Name())
	}
}

func newChunks(name string, n int) *chunks { return &chunks{name: name, t: newTrace(name), n: n} }

type authGen struct {
	Grants, Asked, Texts []string
}

// ask evaluates a yes/no question on the code under test; a panic is recorded as such
func ask(f func() bool) (r int) {
	defer func() {
		if p := recover(); p != nil {
			r = 2
		}
	}()
	return bit(f())
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func driveAuth(t *testing.T) {
	var g authGen
	readJSON("auth.json", &g)
	switch prop {
	case "A01":
		authImplies(g)
	case "A02":
		authRoles(g)
	case "A03":
		authMiddlewares(g)
	case "A04":
		authTexts(g)
	}
}

func authImplies(g authGen) {
	c := newChunks("implies", 200)
	one := func(p, q auth.Permission) {
		c.add(obj{"e": "implies", "p": permJ(p), "q": permJ(q), "r": ask(func() bool { return p.Implies(q) })})
	}
	named := []int{}
	for _, a := range []auth.Access{auth.AccessRead, auth.AccessCreate, auth.AccessUpdate, auth.AccessDelete, auth.AccessAdd, auth.AccessRemove,
		auth.AccessDisable, auth.AccessEnable, auth.AccessApprove} {
		named = append(named, bitsOf(a)...)
	}
	c.add(obj{"e": "everything", "p": permJ(auth.AllPermissions()), "all": bitsOf(auth.AccessAll()), "bits": named})
	r := newRand(1)
	for _, gs := range g.Grants {
		for _, as := range g.Asked {
			one(auth.Permission{Scope: gs, Access: 3}, auth.Permission{Scope: as, Access: 1})
			for k := 0; k < scale(2, 8); k++ {
				one(auth.Permission{Scope: gs, Access: auth.Access(r.Intn(8))}, auth.Permission{Scope: as, Access: auth.Access(r.Intn(8))})
			}
		}
	}
	// every pair of access sets over a few bits, low and high
	for _, sh := range []int{0, 7, 29} {
		for x := 0; x < 8; x++ {
			for y := 0; y < 8; y++ {
				one(auth.Permission{Scope: "a/*", Access: auth.Access(x << sh)}, auth.Permission{Scope: "a/b", Access: auth.Access(y << sh)})
			}
		}
	}
	for i := 0; i < 9; i++ {
		one(auth.AllPermissions(), auth.Permission{Scope: "x/y/z", Access: auth.Access(1 << i)})
		one(auth.Permission{Scope: "x", Access: auth.Access(1 << i)}, auth.AllPermissions())
	}
	lv := []string{"a", "b", "*", "ab", "", "A", "a*"}
	for k := 0; k < scale(3000, 40000); k++ {
		p := auth.Permission{Scope: randScope(r, lv, 3), Access: auth.Access(1 + r.Intn(15))}
		if r.Intn(4) == 0 {
			p.Access <<= 28
		}
		one(p, around(r, p))
		q := around(r, p)
		one(over(r, q), q)
	}
	for k := 0; k < scale(1500, 8000); k++ {
		one(auth.Permission{Scope: randScope(r, lv, 3), Access: auth.Access(r.Uint32())}, auth.Permission{Scope: randScope(r, []string{"a", "b", "ab", "", "A"}, 4), Access: auth.Access(r.Uint32() & r.Uint32() & r.Uint32() & r.Uint32())})
	}
	c.close()
}

func randScope(r *rand.Rand, lv []string, n int) string {
	var ss []string
	for i := 1 + r.Intn(n); i > 0; i-- {
		ss = append(ss, pick(r, lv))
	}
	return strings.Join(ss, "/")
}

// around returns a permission near p: one that p implies, or just not
func around(r *rand.Rand, p auth.Permission) auth.Permission {
	lv := strings.Split(p.Scope, "/")
	for i := range lv {
		if lv[i] == "*" {
			lv[i] = pick(r, []string{"a", "b", "ab"})
		}
	}
	switch r.Intn(8) {
	case 0:
		lv = lv[:len(lv)-1]
	case 1, 2:
		lv = append(lv, pick(r, []string{"a", "b"}))
	case 3:
		lv[r.Intn(len(lv))] = pick(r, []string{"a", "b", "A"})
	case 4:
		i := r.Intn(len(lv))
		lv[i] += pick(r, []string{"a", ""})
	}
	if len(lv) == 0 {
		lv = []string{"a"}
	}
	a := p.Access
	switch r.Intn(4) {
	case 0:
		a |= 1 << r.Intn(4)
	case 1:
		a &^= 1 << r.Intn(3)
	case 2:
		a &= auth.Access(r.Uint32())
	}
	if a == 0 {
		a = p.Access
	}
	return auth.Permission{Scope: strings.Join(lv, "/"), Access: a}
}

// over returns a permission whose scope covers the one of q, or just not, and that shares an access with it, or just not
func over(r *rand.Rand, q auth.Permission) auth.Permission {
	lv := strings.Split(q.Scope, "/")
	for i := range lv {
		if r.Intn(3) == 0 {
			lv[i] = "*"
		}
	}
	if n := r.Intn(len(lv) + 1); n > 0 && r.Intn(3) == 0 {
		lv = append(lv[:n-1], "*")
	}
	if r.Intn(6) == 0 {
		lv[r.Intn(len(lv))] = pick(r, []string{"b", "aa"})
	}
	if len(lv) > 3 {
		lv = append(lv[:2], "*")
	}
	a := auth.Access(1 << r.Intn(3))
	if r.Intn(2) == 0 {
		a |= q.Access
	}
	return auth.Permission{Scope: strings.Join(lv, "/"), Access: a}
}

// asking returns a question that is close to what the user may do
func asking(r *rand.Rand, u auth.User) auth.Permission {
	var al, de []auth.Permission
	for _, g := range u.Groups {
		for _, ro := range g.Roles {
			al, de = append(al, ro.AllowedPermissions...), append(de, ro.DeniedPermissions...)
		}
	}
	switch {
	case len(al) > 0 && r.Intn(6) > 0:
		return around(r, pick(r, al))
	case len(de) > 0 && r.Intn(2) > 0:
		return around(r, pick(r, de))
	}
	return auth.Permission{Scope: randScope(r, []string{"a", "b"}, 3), Access: auth.Access(1 + r.Intn(7))}
}

// deny adds a denied permission close to q to one of the roles
func deny(r *rand.Rand, u auth.User, q auth.Permission) {
	if len(u.Groups) == 0 {
		return
	}
	if g := pick(r, u.Groups); len(g.Roles) > 0 {
		ro := &g.Roles[r.Intn(len(g.Roles))]
		i := r.Intn(len(ro.DeniedPermissions) + 1)
		ro.DeniedPermissions = append(append(append([]auth.Permission{}, ro.DeniedPermissions[:i]...), over(r, q)), ro.DeniedPermissions[i:]...)
	}
}

// generous: a user whose roles deny little
func generous(r *rand.Rand) auth.User {
	u := randUser(r)
	for i := range u.Groups {
		for j := range u.Groups[i].Roles {
			u.Groups[i].Roles[j].DeniedPermissions = nil
		}
	}
	return u
}

func randPerms(r *rand.Rand, max int, wild bool) []auth.Permission {
	lv := []string{"a", "b"}
	if wild {
		lv = []string{"a", "b", "*"}
	}
	var ps []auth.Permission
	for i := r.Intn(max + 1); i > 0; i-- {
		ps = append(ps, auth.Permission{Scope: randScope(r, lv, 3), Access: auth.Access(1 + r.Intn(7))})
	}
	return ps
}

func randUser(r *rand.Rand) auth.User {
	var u auth.User
	for i := r.Intn(3); i >= 0; i-- {
		var gr auth.Group
		for j := r.Intn(3); j > 0; j-- {
			gr.Roles = append(gr.Roles, auth.Role{Name: fmt.Sprint("r", i, j), AllowedPermissions: randPerms(r, 3, true), DeniedPermissions: randPerms(r, pick(r, []int{2, 2, 5}), true)})
		}
		u.Groups = append(u.Groups, gr)
	}
	return u
}

// crowd: a user of many groups and roles with permissions of few words, and one place that matters
func crowd(r *rand.Rand) auth.User {
	var u auth.User
	ng, nr, np := 1+r.Intn(12), 1+r.Intn(12), 1+r.Intn(40)
	for i := 0; i < ng; i++ {
		var gr auth.Group
		for j := 0; j < nr; j++ {
			ro := auth.Role{Name: fmt.Sprint("r", i, "-", j)}
			for k := r.Intn(4); k > 0; k-- {
				ro.AllowedPermissions = append(ro.AllowedPermissions, auth.Permission{Scope: fmt.Sprint("q/", k), Access: 1})
			}
			gr.Roles = append(gr.Roles, ro)
		}
		u.Groups = append(u.Groups, gr)
	}
	ro := &u.Groups[r.Intn(ng)].Roles[r.Intn(nr)]
	for k := 0; k < np; k++ {
		ro.AllowedPermissions = append(ro.AllowedPermissions, auth.Permission{Scope: fmt.Sprint("a/w", k), Access: auth.Access(1 + r.Intn(7))})
		if r.Intn(2) == 0 {
			ro.DeniedPermissions = append(ro.DeniedPermissions, auth.Permission{Scope: fmt.Sprint("a/w", r.Intn(np)), Access: auth.Access(1 << r.Intn(4))})
		}
	}
	return u
}

// named gives the roles of a user names that repeat, are missing, or look like one another
func named(r *rand.Rand, u auth.User) {
	ns := pick(r, [][]string{{""}, {"r"}, {"", "r"}, {"r", "R", "r "}, {"r00", "r0", "r", "00"}, {"r", "r/*", "*", "é", "e\u0301"}})
	if r.Intn(3) > 0 {
		return
	}
	for i := range u.Groups {
		for j := range u.Groups[i].Roles {
			u.Groups[i].Roles[j].Name = pick(r, ns)
		}
	}
}

var roleAsked = []string{"", "r", "R", "r ", " ", "*", "r0", "é", "r/*"}

func authRoles(g authGen) {
	c := newChunks("roles", 100)
	r := newRand(2)
	// one allowed and one denied permission, all scopes of the specification
	for _, al := range g.Grants {
		for _, de := range g.Grants {
			if r.Intn(scale(6, 1)) != 0 {
				continue
			}
			role := auth.Role{AllowedPermissions: []auth.Permission{{Scope: al, Access: auth.Access(1 + r.Intn(7))}},
				DeniedPermissions: []auth.Permission{{Scope: de, Access: auth.Access(r.Intn(8))}}}
			for k := 0; k < 8; k++ {
				q := auth.Permission{Scope: pick(r, g.Asked), Access: auth.Access(1 + r.Intn(7))}
				c.add(obj{"e": "role", "role": roleJ(role), "q": permJ(q), "r": ask(func() bool { return role.HasPermission(q) })})
			}
		}
	}
	for k := 0; k < scale(1500, 8000); k++ {
		u := generous(r)
		named(r, u)
		for j := 0; j < 4; j++ {
			q := asking(r, u)
			if j > 0 && r.Intn(2) == 0 {
				deny(r, u, q)
			}
			c.add(obj{"e": "user", "user": userJ(u), "q": permJ(q), "r": ask(func() bool { return u.HasPermission(q) })})
			gr := pick(r, u.Groups)
			c.add(obj{"e": "group", "group": groupJ(gr), "q": permJ(q), "r": ask(func() bool { return gr.HasPermission(q) })})
			n := fmt.Sprint("r", r.Intn(3), r.Intn(2))[:pick(r, []int{4, 4, 3, 1})]
			if r.Intn(3) == 0 {
				n = pick(r, roleAsked)
			}
			c.add(obj{"e": "named", "names": roleNames(u.Groups...), "n": n, "r": ask(func() bool { return u.HasRole(n) })})
			c.add(obj{"e": "named", "names": roleNames(gr), "n": n, "r": ask(func() bool { return gr.HasRole(n) })})
			if len(gr.Roles) > 0 {
				ro := pick(r, gr.Roles)
				c.add(obj{"e": "role", "role": roleJ(ro), "q": permJ(q), "r": ask(func() bool { return ro.HasPermission(q) })})
			}
		}
	}
	// many groups, roles and permissions; the one that decides may be anywhere
	for k := 0; k < scale(120, 1500); k++ {
		u := crowd(r)
		named(r, u)
		for j := 0; j < 5; j++ {
			q := asking(r, u)
			if j > 1 && r.Intn(2) == 0 {
				deny(r, u, q)
			}
			c.add(obj{"e": "user", "user": userJ(u), "q": permJ(q), "r": ask(func() bool { return u.HasPermission(q) })})
			gr := pick(r, u.Groups)
			c.add(obj{"e": "group", "group": groupJ(gr), "q": permJ(q), "r": ask(func() bool { return gr.HasPermission(q) })})
			n := pick(r, append(roleNames(u.Groups...), "nobody"))
			c.add(obj{"e": "named", "names": roleNames(u.Groups...), "n": n, "r": ask(func() bool { return u.HasRole(n) })})
		}
	}
	for k := 0; k < scale(1200, 15000); k++ {
		u := randUser(r)
		named(r, u)
		for j := 0; j < 6; j++ {
			q := auth.Permission{Scope: randScope(r, []string{"a", "b"}, 3), Access: auth.Access(1 + r.Intn(7))}
			c.add(obj{"e": "user", "user": userJ(u), "q": permJ(q), "r": ask(func() bool { return u.HasPermission(q) })})
			if len(u.Groups) > 0 {
				gr := pick(r, u.Groups)
				c.add(obj{"e": "group", "group": groupJ(gr), "q": permJ(q), "r": ask(func() bool { return gr.HasPermission(q) })})
			}
		}
	}
	c.close()
}

func accessText(a auth.Access) string { return strconv.FormatUint(uint64(a), 10) }

func authTexts(g authGen) {
	c := newChunks("texts", 300)
	parse := func(s string) {
		e := obj{"e": "parse", "t": s, "s": "", "a": "", "ok": 0}
		if oc, _ := protect(func() {
			p, err := auth.ParsePermission(s)
			e["ok"] = bit(err == nil)
			e["s"], e["a"] = p.Scope, accessText(p.Access)
		}); oc {
			e["ok"] = 2
		}
		c.add(e)
	}
	mk := func(s string, a auth.Access) {
		e := obj{"e": "new", "s": s, "a": accessText(a), "ok": false, "rs": "", "ra": ""}
		p, err := auth.NewPermission(s, a)
		e["ok"], e["rs"], e["ra"] = err == nil, p.Scope, accessText(p.Access)
		c.add(e)
		p = auth.Permission{Scope: s, Access: a}
		txt := p.String()
		b, err := auth.ParsePermission(txt)
		c.add(obj{"e": "print", "s": s, "a": accessText(a), "t": txt, "ok": err == nil, "rs": b.Scope, "ra": accessText(b.Access)})
	}
	for _, s := range g.Texts {
		parse(s)
		parse(s + ":7")
		parse("a:" + s)
	}
	nums := []string{"4294967295", "4294967296", "4294967294", "4294967300", "04294967295", "00000000000000000001", "42949672950", "18446744073709551615", "18446744073709551616",
		"99999999999999999999999", "5000000000", "3999999999", "2147483648", "2147483647", "0x1", "0b1", "0o7", "1_000", "1e3", "1.0", " 1", "1 ", "+1", "-1", "--1", "１", "٣", "1\n", "", "0", "00", "4294967295x"}
	scopes := append([]string{"", "a", "a/b", "a/b/c", "a/b/c/d", "a/b/c/d/e", "*", "a:b", ":", "a/b:c", "//", "///", "a//", "a b", "é/ü", "a\\b"}, g.Grants...)
	for _, s := range scopes {
		for _, n := range nums {
			parse(s + ":" + n)
		}
	}
	r := newRand(3)
	for k := 0; k < scale(2000, 20000); k++ {
		s := randScope(r, []string{"a", "b", "*", "", "x:y", "é"}, 4)
		n := strconv.FormatUint(uint64(r.Uint32()), 10)
		switch r.Intn(4) {
		case 0:
			n = strconv.FormatUint(4294967290+uint64(r.Intn(12)), 10)
		case 1:
			n = strings.Repeat("0", r.Intn(12)) + n
		case 2:
			n += pick(r, []string{"", "0", "9", "a", ":"})
		}
		parse(s + ":" + n)
		mk(s, auth.Access(r.Uint32()))
	}
	for _, s := range scopes {
		for _, a := range []auth.Access{0, 1, 9, 511, 1 << 30, 1 << 31, 1<<31 - 1, 1<<32 - 1} {
			mk(s, a)
		}
	}
	c.close()
}

func protect(f func()) (panicked bool, val any) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
		}
	}()
	f()
	return false, nil
}

type supplied struct {
	k string // user, nil, err, both (a user together with an error)
	u auth.User
	f int // how the user is given: a value, a pointer, another type
}

// azLayer is a middleware of the chain, and what it is to answer for one request
type azLayer struct {
	supplied // a supplier of the principal, if sup
	sup      bool
	all      bool // an authorization of all or any of perms
	list     bool // the permissions are given when the chain is made
	perms    []auth.Permission
	perr     string // "", err, both (permissions together with an error)
}

// azRun is one request: what the layers answer for it and what was observed
type azRun struct {
	pre    supplied // the principal that is there already
	layers []azLayer
	ran    bool
	who    string
	err    string
}

// azOther is a principal of an application's own type
type azOther struct{ u auth.User }

func (o azOther) Identity() string                     { return o.u.Id }
func (o azOther) HasRole(n string) bool                { return o.u.HasRole(n) }
func (o azOther) HasPermission(p auth.Permission) bool { return o.u.HasPermission(p) }
func (o azOther) String() string                       { return "" }

func (s *supplied) principal() auth.SecurityPrincipal {
	switch s.f {
	case 1:
		return &s.u
	case 2:
		return azOther{s.u}
	}
	return s.u
}

type azKey struct{}

func azOf(mc path.MatchingContext) *azRun { return mc.R.Context().Value(azKey{}).(*azRun) }

func azLayerOf(i int, l azLayer) middleware.Middleware {
	if l.sup {
		err := fmt.Errorf("supplier%d", i+1)
		return middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			s := &azOf(mc).layers[i]
			switch s.k {
			case "both":
				return s.principal(), err
			case "user":
				return s.principal(), nil
			case "err":
				return nil, err
			}
			return nil, nil
		})
	}
	if l.list {
		ps := append([]auth.Permission{}, l.perms...)
		if l.all {
			return middleware.AuthorizeAll(ps...)
		}
		return middleware.AuthorizeAny(ps...)
	}
	err := fmt.Errorf("perms%d", i+1)
	return middleware.Authorize(func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
		s := &azOf(mc).layers[i]
		switch s.perr {
		case "err":
			return nil, err
		case "both":
			return s.perms, err
		}
		return s.perms, nil
	}, l.all)
}

func azHandler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	a := azOf(mc)
	a.ran = true
	if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
		a.who = p.Identity()
	}
	return response.PlainTextHttpResponseOK("ok"), nil
}

func azObserve(next handler.Handler) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		resp, err := next(ctx, mc)
		switch a := azOf(mc); {
		case err == nil:
			return resp, nil
		case err == gerrors.ErrUnauthorizedRequest:
			a.err = "unauthorized"
		default:
			a.err = err.Error()
		}
		return response.PlainTextHttpResponseOK("no"), nil
	}
}

// azServe returns a function that serves requests through the chain, on a mux or called directly
func azServe(layers []azLayer, mux bool) func(a *azRun) {
	mids := []middleware.Middleware{azObserve}
	for i, l := range layers {
		mids = append(mids, azLayerOf(i, l))
	}
	var call func(req *http.Request)
	if mux {
		m, _ := gofre.NewMuxHandlerWithDefaultConfig()
		m.HandleGet("/x", azHandler, mids...)
		call = func(req *http.Request) { m.ServeHTTP(httptest.NewRecorder(), req) }
	} else {
		var w handler.Handler = azHandler
		for i := len(mids) - 1; i >= 0; i-- {
			w = mids[i](w)
		}
		call = func(req *http.Request) { w(req.Context(), path.MatchingContext{R: req}) }
	}
	return func(a *azRun) {
		ctx := context.WithValue(context.Background(), azKey{}, a)
		if a.pre.k == "user" {
			ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, a.pre.principal())
		}
		req := (&http.Request{Method: "GET", URL: &url.URL{Path: "/x"}, Header: http.Header{}, Body: http.NoBody, Host: "h"}).WithContext(ctx)
		noise(req.Header)
		if pn, _ := protect(func() { call(req) }); pn {
			a.err = "panic"
		}
	}
}

func authMiddlewares(g authGen) {
	c := newChunks("authorize", 40)
	r := newRand(4)
	nextID := 0
	suppliedJ := func(s supplied) obj {
		if s.k == "both" {
			s.k = "err"
		}
		return obj{"t": "sup", "k": s.k, "id": s.u.Id, "u": userJ(s.u)}
	}
	put := func(a *azRun) {
		ls := arr{}
		for _, l := range a.layers {
			if l.sup {
				ls = append(ls, suppliedJ(l.supplied))
			} else {
				ls = append(ls, obj{"t": "az", "all": l.all, "perms": permsJ(l.perms), "permserr": l.perr != ""})
			}
		}
		c.add(obj{"e": "authorize", "pre": suppliedJ(a.pre), "layers": ls, "ran": a.ran, "err": a.err, "who": a.who})
	}
	// every request has its own principals
	mk := func(pre supplied, layers []azLayer) *azRun {
		a := &azRun{pre: pre, layers: append([]azLayer{}, layers...)}
		for i := range a.layers {
			nextID++
			a.layers[i].u.Id = fmt.Sprint("u", nextID)
		}
		nextID++
		a.pre.u.Id = fmt.Sprint("u", nextID)
		return a
	}
	// chains are shared by the requests, so what was answered for a request should not matter for others
	shared := map[string]func(a *azRun){}
	serve := func(a *azRun, mux bool) {
		k, lists := fmt.Sprint(mux), false
		for _, l := range a.layers {
			k += fmt.Sprint(l.sup, l.all)
			lists = lists || l.list && !l.sup
		}
		if lists {
			azServe(a.layers, mux)(a)
			return
		}
		if shared[k] == nil {
			shared[k] = azServe(a.layers, mux)
		}
		shared[k](a)
	}
	none := supplied{k: "nil"}
	can := func(bits auth.Access) auth.User {
		return auth.User{Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{{Scope: "a/*", Access: bits}}}}}}}
	}
	// every combination of supplier behaviours, list and mode
	kinds := []string{"user", "nil", "err", "both"}
	var supLists [][]azLayer
	supLists = append(supLists, nil)
	for _, k := range kinds {
		supLists = append(supLists, []azLayer{{sup: true, supplied: supplied{k, can(3), 0}}})
		for _, k2 := range kinds {
			supLists = append(supLists, []azLayer{{sup: true, supplied: supplied{k, can(3), 1}}, {sup: true, supplied: supplied{k2, can(5), 2}}})
		}
	}
	P := func(s string, a auth.Access) auth.Permission { return auth.Permission{Scope: s, Access: a} }
	lists := [][]auth.Permission{{}, {P("a/b", 1)}, {P("a/b", 2)}, {P("a/b", 4)}, {P("a/b", 1), P("a/c", 2)}, {P("b", 1), P("a/c", 1)}, {P("b", 1), P("c", 1)}, {P("a/c", 1), P("b", 1)},
		{P("a/b", 1), P("b", 1), P("a/c", 4)}, {P("b", 1), P("a/b", 3)}, {P("a/b", 4), P("a/b", 1)}}
	for _, sl := range supLists {
		for _, ps := range lists {
			for _, all := range []bool{true, false} {
				for _, form := range []string{"list", "func", "func", "err"} {
					az := azLayer{all: all, list: form == "list", perms: ps}
					if form == "err" {
						az.perr = pick(r, []string{"err", "both"})
					}
					at := len(sl) // where the authorization stands among the suppliers
					if len(sl) > 0 && r.Intn(4) == 0 {
						at = r.Intn(len(sl))
					}
					ls := append(append(append([]azLayer{}, sl[:at]...), az), sl[at:]...)
					pre := none
					if r.Intn(4) == 0 {
						pre = supplied{"user", can(auth.Access(r.Intn(8))), r.Intn(3)}
					}
					a := mk(pre, ls)
					serve(a, r.Intn(2) == 0)
					put(a)
				}
			}
		}
	}
	randRun := func(n, m int) *azRun {
		var ls []azLayer
		var users []auth.User
		for i := 0; i < n; i++ {
			u := generous(r)
			if r.Intn(3) == 0 {
				u = randUser(r)
			}
			users = append(users, u)
			ls = append(ls, azLayer{sup: true, supplied: supplied{pick(r, []string{"user", "user", "user", "user", "user", "user", "user", "user", "nil", "err", "both"}), u, r.Intn(3)}})
		}
		pre := none
		if r.Intn(5) == 0 {
			pre = supplied{"user", generous(r), r.Intn(3)}
			users = append(users, pre.u)
		}
		for i := 0; i < m; i++ {
			az := azLayer{all: r.Intn(2) == 0, list: r.Intn(4) == 0}
			if r.Intn(4) == 0 || len(users) == 0 {
				az.perms = randPerms(r, 4, false)
			} else {
				u := users[len(users)-1]
				if r.Intn(4) == 0 {
					u = pick(r, users)
				}
				for k := r.Intn(pick(r, []int{4, 4, 4, 4, 4, 4, 4, 40})); k >= 0; k-- {
					q := asking(r, u)
					for t := 0; t < 8 && !u.HasPermission(q); t++ { // mostly ones it has
						q = asking(r, u)
					}
					az.perms = append(az.perms, q)
				}
				if r.Intn(4) == 0 {
					deny(r, u, pick(r, az.perms))
				}
			}
			if r.Intn(20) == 0 && !az.list {
				az.perr = pick(r, []string{"err", "both"})
			}
			at := len(ls)
			if r.Intn(5) == 0 {
				at = r.Intn(len(ls) + 1)
			}
			ls = append(append(append([]azLayer{}, ls[:at]...), az), ls[at:]...)
		}
		return mk(pre, ls)
	}
	for k := 0; k < scale(2000, 20000); k++ {
		a := randRun(1+r.Intn(3), 1+r.Intn(2)*r.Intn(3))
		serve(a, r.Intn(2) == 0)
		put(a)
	}
	// shared middlewares, many requests at the same time: every handler sees its own principal and is decided by its own permissions
	together := azServe([]azLayer{{sup: true}, {all: true}}, true)
	var wg sync.WaitGroup
	var runs []*azRun
	for i := scale(600, 6000); i > 0; i-- {
		a := mk(none, []azLayer{{sup: true, supplied: supplied{"user", can(auth.Access(1 + r.Intn(3))), 0}}, {all: true, perms: []auth.Permission{P("a/b", auth.Access(1+r.Intn(3)))}}})
		if r.Intn(4) == 0 {
			a.layers[0].k = pick(r, kinds)
		}
		runs = append(runs, a)
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(runs); i += 8 {
				together(runs[i])
			}
		}()
	}
	wg.Wait()
	for _, a := range runs {
		put(a)
	}
	c.close()
}

func str(v any) string {
	s, _ := v.(string)
	return s
}
