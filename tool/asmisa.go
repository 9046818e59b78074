package main

import (
	"os"
	"regexp"
	"sort"
	"strings"
)

var avx2Ops = set(`VPBROADCASTB VPBROADCASTW VPBROADCASTD VPBROADCASTQ VBROADCASTI128 VINSERTI128 VEXTRACTI128
VPERM2I128 VPERMD VPERMQ VPERMPS VPERMPD VPMASKMOVD VPMASKMOVQ VPGATHERDD VPGATHERDQ VPGATHERQD VPGATHERQQ
VGATHERDPS VGATHERDPD VGATHERQPS VGATHERQPD VPSLLVD VPSLLVQ VPSRLVD VPSRLVQ VPSRAVD VPBLENDD`)

var otherOps = map[string]string{}

func init() {
	add := func(need, ops string) {
		for _, o := range strings.Fields(ops) {
			otherOps[o] = need
		}
	}
	add("SSE3", "LDDQU MOVDDUP MOVSHDUP MOVSLDUP HADDPD HADDPS HSUBPD HSUBPS ADDSUBPD ADDSUBPS")
	add("SSSE3", "PSHUFB PHADDW PHADDD PHADDSW PHSUBW PHSUBD PHSUBSW PMADDUBSW PMULHRSW PABSB PABSW PABSD PSIGNB PSIGNW PSIGND PALIGNR")
	add("SSE41", `PMULLD PMULDQ PMINUD PMINUW PMINSB PMINSD PMAXUD PMAXUW PMAXSB PMAXSD PINSRB PINSRD PINSRQ PEXTRB PEXTRD PEXTRQ
PACKUSDW PTEST PCMPEQQ PHMINPOSUW BLENDPD BLENDPS PBLENDW PBLENDVB BLENDVPS BLENDVPD DPPS DPPD ROUNDPS ROUNDPD ROUNDSS ROUNDSD
EXTRACTPS INSERTPS MPSADBW MOVNTDQA PMOVSXBW PMOVSXBD PMOVSXBQ PMOVSXWD PMOVSXWQ PMOVSXDQ PMOVZXBW PMOVZXBD PMOVZXBQ PMOVZXWD PMOVZXWQ PMOVZXDQ`)
	add("SSE42", "PCMPGTQ PCMPESTRI PCMPESTRM PCMPISTRI PCMPISTRM CRC32B CRC32W CRC32L CRC32Q")
	add("POPCNT", "POPCNTW POPCNTL POPCNTQ")
	add("BMI1", "ANDNL ANDNQ BEXTRL BEXTRQ BLSIL BLSIQ BLSMSKL BLSMSKQ BLSRL BLSRQ TZCNTW TZCNTL TZCNTQ LZCNTW LZCNTL LZCNTQ")
	add("BMI2", "BZHIL BZHIQ MULXL MULXQ PDEPL PDEPQ PEXTL PEXTQ RORXL RORXQ SARXL SARXQ SHLXL SHLXQ SHRXL SHRXQ")
	add("ADX", "ADCXL ADCXQ ADOXL ADOXQ")
	add("AES", "AESENC AESENCLAST AESDEC AESDECLAST AESIMC AESKEYGENASSIST")
	add("PCLMULQDQ", "PCLMULQDQ")
	add("MOVBE", "MOVBEWW MOVBELL MOVBEQQ MOVBEW MOVBEL MOVBEQ")
}

var (
	reText  = regexp.MustCompile(`^\s*TEXT\s+([^\s(]*)(<>)?\(SB\)`)
	reInstr = regexp.MustCompile(`^\s*([A-Z][A-Z0-9]*)\b(.*)$`)
	reY     = regexp.MustCompile(`\bY([0-9]|1[0-5])\b`)
	reZ     = regexp.MustCompile(`\bZ([0-9]|[12][0-9]|3[01])\b|\bK[0-7]\b|\b[XY](1[6-9]|2[0-9]|3[01])\b`)
	reCall  = regexp.MustCompile(`·([A-Za-z0-9_]+)(<>)?\(SB\)`)
)

// asmNeeds derives from the source of an assembly routine which instruction
// set extensions a processor must have to run it.
func asmNeeds(pi *pkgInfo, name string) []string {
	type body struct {
		need  map[string]bool
		calls []string
	}
	bodies := map[string]*body{}
	for _, a := range pi.asm {
		b, err := os.ReadFile(a)
		if err != nil {
			continue
		}
		var cur *body
		for _, raw := range strings.Split(string(b), "\n") {
			if i := strings.Index(raw, "//"); i >= 0 {
				raw = raw[:i]
			}
			for _, l := range strings.Split(raw, ";") {
				if m := reText.FindStringSubmatch(l); m != nil {
					n := m[1]
					if i := strings.LastIndex(n, "·"); i >= 0 {
						n = n[i+len("·"):]
					}
					cur = &body{need: map[string]bool{}}
					bodies[n] = cur
					continue
				}
				if cur == nil {
					continue
				}
				if i := strings.Index(l, ":"); i >= 0 && !strings.Contains(l[:i], " ") {
					l = l[i+1:]
				}
				m := reInstr.FindStringSubmatch(l)
				if m == nil {
					continue
				}
				op, args := m[1], m[2]
				switch {
				case op == "CALL" || op == "JMP":
					if c := reCall.FindStringSubmatch(args); c != nil {
						cur.calls = append(cur.calls, c[1])
					}
				case otherOps[op] != "":
					cur.need[otherOps[op]] = true
				case strings.HasPrefix(op, "V") && op != "VERR" && op != "VERW":
					if reZ.MatchString(args) {
						cur.need["AVX512F"] = true
						break
					}
					cur.need["AVX"] = true
					if avx2Ops[op] {
						cur.need["AVX2"] = true
					}
					if reY.MatchString(args) && strings.HasPrefix(op, "VP") && op != "VPERMILPS" && op != "VPERMILPD" && op != "VPTEST" && op != "VPERM2F128" {
						cur.need["AVX2"] = true
					}
					if (op == "VBROADCASTSS" || op == "VBROADCASTSD") && !strings.Contains(args, "(") {
						cur.need["AVX2"] = true
					}
					if strings.HasPrefix(op, "VFMADD") || strings.HasPrefix(op, "VFMSUB") || strings.HasPrefix(op, "VFNM") {
						cur.need["FMA"] = true
					}
				}
			}
		}
	}
	need := map[string]bool{}
	seen := map[string]bool{}
	var walk func(string)
	walk = func(n string) {
		b := bodies[n]
		if b == nil || seen[n] {
			return
		}
		seen[n] = true
		for k := range b.need {
			need[k] = true
		}
		for _, c := range b.calls {
			walk(c)
		}
	}
	walk(name)
	var out []string
	for k := range need {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
