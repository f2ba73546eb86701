package harness

import (
	"fmt"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// judgeBuilt compares relationships made by the library's builder, one for all, with those made by hand
func judgeBuilt(rels []Rel) error {
	b := domain.RelationshipBuilder{}
	built := make([]*domain.Relationship, len(rels))
	for i, r := range rels {
		err := guard("RelationshipBuilder", func() error {
			switch r.S.K {
			case "e":
				v := b.Relationship(r.O.R, r.O.I, r.Rel, r.S.R, r.S.I)
				built[i] = &v
			case "s":
				v := b.EntitySet(r.O.R, r.O.I, r.Rel, r.S.R, r.S.I, r.S.Rel)
				built[i] = &v
			case "w":
				v := b.Wildcard(r.O.R, r.O.I, r.Rel, r.S.R)
				built[i] = &v
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	for i, r := range rels {
		if built[i] != nil && !proto.Equal(built[i], r.Proto()) {
			return fmt.Errorf("the relationship %+v made by a RelationshipBuilder is %v", r, built[i])
		}
	}
	return nil
}

// judgeBuiltSel does so for selectors. A builder is reused, with and without reset.
func judgeBuiltSel(sels []Sel) error {
	b := &domain.SelectorBuilder{}
	built := make([]*domain.RelationshipSelector, len(sels))
	for i, s := range sels {
		if !s.complete() || s.O == "res" || s.S == "res" {
			continue
		}
		err := guard("SelectorBuilder", func() error {
			if i%2 == 0 {
				b.Reset()
			}
			x := b
			if s.O == "any" {
				x = x.AnyObject()
			} else {
				x = x.WithObject(s.OE.Proto())
			}
			if s.R == "any" {
				x = x.AnyRelation()
			} else {
				x = x.WithRelation(s.Rel)
			}
			if s.S == "any" {
				x = x.AnySubject()
			} else {
				x = x.WithSubject(s.SS.Proto())
			}
			v := x.Build()
			built[i] = &v
			if i%2 == 1 {
				b.Reset()
				if v := b.Build(); !proto.Equal(&v, &domain.RelationshipSelector{}) {
					return fmt.Errorf("after a reset, a SelectorBuilder makes %v", &v)
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	for i, s := range sels {
		if built[i] != nil && !proto.Equal(built[i], s.Proto()) {
			return fmt.Errorf("the selector %+v made by a SelectorBuilder is %v", s, built[i])
		}
	}
	return nil
}
