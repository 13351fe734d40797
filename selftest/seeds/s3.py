import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
def U(body, *imports):
    return 'package oidfed\n\nimport (\n\t"testing"\n' + "".join('\t"%s"\n' % i for i in imports) + ')\n\nfunc TestSeedDemo(t *testing.T) {\n' + body + '\n}\n'
PO, PV, MP, TC = "policyoperators.go", "policyverifiers.go", "metadataPolicy.go", "trustchain.go"
SEEDS = [
dict(id="c09-crit-without-policy", prop="C09", edits=[(TC, "		metadataPolicies[i] = stmt.MetadataPolicy\n", "		if stmt.MetadataPolicy == nil {\n			continue\n		}\n		metadataPolicies[i] = stmt.MetadataPolicy\n")],
 demo=U('''	st := func(p EntityStatementPayload) *EntityStatement { return &EntityStatement{EntityStatementPayload: p} }
	c := TrustChain{
		st(EntityStatementPayload{Issuer: "a", Subject: "a", Metadata: &Metadata{}}),
		st(EntityStatementPayload{Issuer: "b", Subject: "a", MetadataPolicyCrit: []PolicyOperatorName{"regexp"}}),
		st(EntityStatementPayload{Issuer: "c", Subject: "b", MetadataPolicy: &MetadataPolicies{}}),
		st(EntityStatementPayload{Issuer: "c", Subject: "c"}),
	}
	if m, err := c.Metadata(); err == nil {
		t.Fatalf("metadata %v although a critical operator is not understood", m)
	}'''), needs="a statement with critical operators but no policy of its own in a chain with policies", breaks="critical operators of statements without policy are ignored"),
dict(id="c11-essential-flag", prop="C11", edits=[(MP, "		essential, _ = essentialV.(bool)\n", "		essential = essentialV != nil\n")],
 demo=U('''	e := MetadataPolicyEntry{"one_of": []string{"x"}, "essential": false}
	if v, err := e.ApplyTo(nil, false, "p"); err != nil {
		t.Fatalf("%v %v", v, err)
	}'''), needs="a policy entry with essential explicitly false and a value check for an absent claim", breaks="claims that are explicitly not essential are required"),
dict(id="c13-third-policy", prop="C13", edits=[(MP, "		out, err = combineMetadataPolicy(out, policies[i], pathInfo)", "		out, err = combineMetadataPolicy(policies[i-1], policies[i], pathInfo)")],
 demo=U('''	a := MetadataPolicy{"x": {"subset_of": []string{"a"}}}
	b := MetadataPolicy{"y": {"essential": true}}
	d := MetadataPolicy{"z": {"essential": true}}
	c, err := CombineMetadataPolicy("p", a, b, d)
	if err != nil || len(c) != 3 {
		t.Fatalf("%v %v", c, err)
	}'''), needs="three superiors with policies", breaks="the policy of the highest superior is dropped from the third policy on"),
dict(id="c14-last-verifier", prop="C14", edits=[(MP, "	for _, v := range policyVerifiers {\n		if err := v(p, pathInfo); err != nil {\n			return err\n		}\n	}\n	return nil\n", "	var err error\n	for _, v := range policyVerifiers {\n		if e := v(p, pathInfo); e != nil || len(p) > 4 {\n			err = e\n		}\n	}\n	return err\n")],
 demo=U('''	p := MetadataPolicyEntry{"add": []string{"x"}, "value": []string{"x", "y"}, "subset_of": []string{"y"}, "essential": true, "superset_of": []string{"y"}}
	if err := p.Verify("p"); err == nil {
		t.Fatalf("add is outside subset_of")
	}'''), needs="an entry with five operators of which an early rule is violated", breaks="contradictions in entries with many operators go unnoticed"),
dict(id="c14-value-subset", prop="C14", edits=[(PV, "	if !utils.ReflectIsSubsetOf(valueV, subsetV) {", "	if _, add := p[PolicyOperatorAdd]; !add && !utils.ReflectIsSubsetOf(valueV, subsetV) {")],
 demo=U('''	p := MetadataPolicyEntry{"add": []string{"x"}, "value": []string{"x", "y"}, "subset_of": []string{"x"}}
	if err := p.Verify("p"); err == nil {
		t.Fatalf("value is outside subset_of")
	}'''), needs="value, add and subset_of together in one entry", breaks="a value outside subset_of is accepted if add is present too"),
dict(id="c12-null-value", prop="C12", edits=[(PO, "			return nil, false, nil\n", "			return nil, valueSet, nil\n"), (PO, "	func(value any, _ bool, policyValue any, _ bool, _ string) (any, bool, error) {", "	func(value any, valueSet bool, policyValue any, _ bool, _ string) (any, bool, error) {")],
 demo=U('''	e := MetadataPolicyEntry{"value": nil, "superset_of": []string{"x"}}
	if v, err := e.ApplyTo([]string{"a"}, true, "p"); err != nil || v != nil {
		t.Fatalf("%v %v", v, err)
	}'''), needs="a null value operator together with another operator on a claim that is set", breaks="a claim removed by the policy is still checked as if it were set"),
]
