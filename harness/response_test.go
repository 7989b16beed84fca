package harness

import (
	"testing"
)

func init() { modes["response"] = driveResponse }

type shape struct {
	Kind, Method, Over string
	Status, Mw         int
}

func (sh shape) own() []kv {
	switch sh.Over {
	case "ct":
		return []kv{{"Content-Type", "text/x-special"}}
	case "lowerct":
		return []kv{{"content-type", "text/x-special"}}
	case "emptyct":
		return []kv{{"Content-Type", ""}, {"X-Content-Type-Options", ""}}
	case "sniff":
		return []kv{{"X-Content-Type-Options", "other"}}
	}
	return nil
}

func driveResponse(t *testing.T) {
	var shapes []shape
	readJSON("shapes.json", &shapes)
	r := newRand(80)
	s := newSite(nil)
	defer s.close()
	c := newChunks("responses", 40)
	for k := 0; k < scale(1, 4); k++ {
		for _, sh := range shapes {
			d := describe1(r, sh.Kind, sh.Status, sh.own(), sh.Mw == 1)
			before, panics := s.logged.Load(), s.panics.Load()
			p := d.proto(r)
			g := s.fetch(0, s.put(d), sh.Method, p, nil, isJSON(d))
			c.add(obj{"d": d, "method": sh.Method, "g": g, "logged": s.logged.Load() - before, "panics": s.panics.Load() - panics})
		}
	}
	c.close()
}
