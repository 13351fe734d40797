import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
TF = "trustchainfilter.go"
CH = '''	st := func(iss, sub string) *EntityStatement {
		return &EntityStatement{EntityStatementPayload: EntityStatementPayload{Issuer: iss, Subject: sub}}
	}
'''
SEEDS = [
dict(id="c24-anchor-passed", prop="C24", edits=[(TF, "	return chain[len(chain)-1].Issuer == c.anchor\n", "	for i := 1; i < len(chain); i++ {\n		if chain[i].Issuer == c.anchor {\n			return true\n		}\n	}\n	return chain[0].Issuer == c.anchor\n")],
 demo=T(CH + '''	c := TrustChain{st("a", "a"), st("t1", "a"), st("t2", "t1"), st("t2", "t2")}
	if got := (TrustChains{c}).Filter(TrustChainsFilterTrustAnchor("t1")); len(got) != 0 {
		t.Fatal("chain ends at t2")
	}
	if got := (TrustChains{c}).Filter(TrustChainsFilterTrustAnchor("t2")); len(got) != 1 {
		t.Fatal("chain ends at t2")
	}'''), needs="a trust anchor that is an intermediate of another anchor's federation", breaks="chains that only pass the requested trust anchor are kept"),
dict(id="c24-min-adjacent", prop="C24", edits=[(TF, "			if l := chains[i].PathLen(); l < minimum {\n				minimum = l\n			}\n", "			if l := chains[i].PathLen(); l < chains[i-1].PathLen() {\n				minimum = l\n			}\n")],
 demo=T(CH + '''	mk := func(n int) TrustChain {
		c := TrustChain{}
		for i := 0; i < n+3; i++ {
			c = append(c, st("x", "y"))
		}
		return c
	}
	if got := (TrustChains{mk(1), mk(3), mk(2)}).Filter(TrustChainsFilterMinPathLength); len(got) != 1 || got[0].PathLen() != 1 {
		t.Fatal(len(got))
	}'''), needs="three chains of which the first is the shortest and the last shorter than the second", breaks="chains that are not the shortest are kept"),
]
