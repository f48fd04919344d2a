package check

import (
	"fmt"
)

// Checks maps a property to what decides it.
var Checks = map[string]func(s *Subject, r *Report) error{
	"C01": func(s *Subject, r *Report) error {
		y, err := s.posts(r, "C01")
		if err != nil {
			return err
		}
		y.safety(r, "safety", "pre")
		y.terminates(r)
		y.reachable(r)
		if l, err := s.lookup(); err == nil {
			l.y.safety(r, "safety", "pre", "unsupported")
			l.y.terminates(r)
		}
		return nil
	},
	"C02": func(s *Subject, r *Report) error {
		y, err := s.posts(r, "C02")
		if err != nil {
			return err
		}
		y.reachable(r)
		return nil
	},
	"C10": func(s *Subject, r *Report) error {
		y, err := s.posts(r, "C10")
		if err != nil {
			return err
		}
		y.reachable(r)
		return nil
	},
	"C11": func(s *Subject, r *Report) error {
		y, err := s.posts(r, "C11")
		if err != nil {
			return err
		}
		y.reachable(r)
		_, err = s.pairs(r, "C11", false)
		return err
	},
	"C03": func(s *Subject, r *Report) error { _, err := s.pairs(r, "C03", false); return err },
	"C04": func(s *Subject, r *Report) error { _, err := s.pairs(r, "C04", false); return err },
	"C05": func(s *Subject, r *Report) error {
		y, err := s.pairs(r, "C05", false)
		if err != nil {
			return err
		}
		y.safety(r, "frame")
		r.ok(y.Fn.String(), "frame", "writes no memory but its own", "every store considered")
		return nil
	},
	"C06": func(s *Subject, r *Report) error { return s.walk(r, "C06") },
	"C07": func(s *Subject, r *Report) error { return s.walk(r, "C07") },
	"C08": func(s *Subject, r *Report) error { return s.walk(r, "C08") },
	"C09": func(s *Subject, r *Report) error { return s.walk(r, "C09") },
	"C13": func(s *Subject, r *Report) error { return s.machine(r) },
	"C16": func(s *Subject, r *Report) error { return s.names(r) },
	"C12": func(s *Subject, r *Report) error {
		l, err := s.lookup()
		if err != nil {
			return err
		}
		s.proveLookup(r, l, "C12")
		s.canonical(r, l)
		l.y.safety(r, "unsupported")
		return nil
	},
}

// Run decides a property.
func Run(cfg Config, prop string, r *Report) (s *Subject, err error) {
	f := Checks[prop]
	if f == nil {
		return nil, fmt.Errorf("no check for %s", prop)
	}
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
			if r.Log {
				panic(p)
			}
		}
	}()
	if s, err = Load(cfg); err != nil {
		return nil, err
	}
	r.mu.Lock()
	r.subject = s
	r.mu.Unlock()
	r.logf("loaded")
	s.induct(r)
	err = f(s, r)
	return s, err
}
