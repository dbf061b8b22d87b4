# writes harness/spec_ops.inc from the official SPIR-V grammar (the oracle of C10/C11).  The output is committed: the
# checks do not need the grammar file.
import json, re, os
G='/usr/include/spirv/unified1/'
g=json.load(open(G+'spirv.core.grammar.json'))
here=os.path.dirname(os.path.abspath(__file__))
spv=open('/repo/lib/include/spvgentwo/Spv.h').read()
enum=dict()
for n,v in re.findall(r'(Op\w+)\s*=\s*(\w+)',re.search(r'enum class Op\b.*?\{(.*?)\};',spv,re.S).group(1)): enum.setdefault(int(v,0),[]).append(n)
ops={}
for i in g['instructions']:
    if i['opcode'] in enum and i['opcode'] not in ops: ops[i['opcode']]=i
def has(i,k): return any(o['kind']==k for o in i.get('operands',[]))
TYPE={i for i,x in ops.items() if x['opname'].startswith('OpType')}
CONST={i for i,x in ops.items() if x['opname'].startswith('OpConstant')}
SPEC={i for i,x in ops.items() if x['opname'].startswith('OpSpecConstant')}
# SPIR-V 2.2.5 termination instructions (branch/function/ray-invocation termination)
TERM={i for i,x in ops.items() if x['opname'] in ('OpBranch','OpBranchConditional','OpSwitch','OpReturn','OpReturnValue','OpKill','OpUnreachable','OpTerminateInvocation','OpIgnoreIntersectionKHR','OpTerminateRayKHR','OpEmitMeshTasksEXT')}
out=['// generated by tools/mkspec.py from spirv.core.grammar.json %d.%d r%d'%(g['major_version'],g['minor_version'],g['revision'])]
def fn(name,groups,default):
    out.append('static unsigned %s(unsigned op)\n{\n\tswitch (op)\n\t{'%name)
    for val,s in groups:
        s=sorted(s)
        for k in range(0,len(s),12): out.append('\t'+' '.join('case %d:'%x for x in s[k:k+12]))
        out.append('\t\treturn %s;'%val)
    out.append('\tdefault: return %s;\n\t}\n}'%default)
sh={}
for i,x in ops.items(): sh.setdefault((1 if has(x,'IdResult') else 0)|(2 if has(x,'IdResultType') else 0),set()).add(i)
fn('specShape',[(k,sh[k]) for k in sorted(sh)],'4')
cl={}
for i in ops:
    b=(1 if i in TYPE else 0)|(2 if i in CONST else 0)|(4 if i in SPEC else 0)|(8 if i in TERM else 0)
    if b: cl.setdefault(b,set()).add(i)
fn('specClass',[(k,cl[k]) for k in sorted(cl)],'0')
em={}
emenum={int(v,0) for n,v in re.findall(r'(\w+)\s*=\s*(\w+)',re.search(r'enum class ExecutionMode\b.*?\{(.*?)\};',spv,re.S).group(1))}
for k in g['operand_kinds']:
    if k['kind']=='ExecutionMode':
        for e in k['enumerants']:
            if e['value'] in emenum: em.setdefault('1' if any(p['kind'].startswith('Id') for p in e.get('parameters',[])) else '0',set()).add(e['value'])
fn('specExecMode',sorted(em.items()),'2')
capv={int(v,0) for n,v in re.findall(r'(\w+)\s*=\s*(\w+)',re.search(r'enum class Capability\b.*?\{(.*?)\};',spv,re.S).group(1))}
K=[k for k in g['operand_kinds'] if k['kind']=='Capability'][0]['enumerants']
cname={e['enumerant']:e['value'] for e in K}
for w in (0,1):
    cp={}
    for e in K:
        b=[cname[x] for x in e.get('capabilities',[])]
        assert len(b)<=2
        if e['value'] in capv and len(b)>w: cp.setdefault(str(b[w]),set()).add(e['value'])
    fn('specImplied%d'%w,sorted(cp.items()),'0x7fffffff')
def otype(n):
    n=n[2:]
    if re.match(r'F(Add|Convert|Div|Mod|Mul|Negate|Rem|Sub|Ord\w+|Unord\w+)$|DPd[xy](Fine|Coarse)?$|Fwidth(Fine|Coarse)?$|Is(Nan|Inf|Finite|Normal)$|SignBitSet$|LessOrGreater$|Ordered$|Unordered$|ConvertFTo[SU]$',n): return '1'
    if re.match(r'S(Convert|Div|Mod|Rem|Negate|MulExtended|GreaterThan|GreaterThanEqual|LessThan|LessThanEqual)$|ConvertSToF$',n): return '3'
    if re.match(r'U(Convert|Div|Mod|MulExtended|GreaterThan|GreaterThanEqual|LessThan|LessThanEqual)$|ConvertUTo(F|Ptr)$|IAddCarry$|ISubBorrow$',n): return '4'
    if re.match(r'I(Add|Sub|Mul|Equal|NotEqual)$|Not$|Shift(RightLogical|RightArithmetic|LeftLogical)$|Bitwise(Or|Xor|And)$|BitFieldInsert$|BitReverse$',n): return '2'
    if re.match(r'Logical(Equal|NotEqual|Or|And|Not)$|Any$|All$',n): return '5'
ot={}
for i,x in ops.items():
    if otype(x['opname']): ot.setdefault(otype(x['opname']),set()).add(i)
fn('specOperandType',sorted(ot.items()),'0')
kinds=sorted({o['kind'] for x in ops.values() for o in x.get('operands',[])})
Q={None:'1','?':'?','*':'*'}
cat={k['kind']:k['category'] for k in g['operand_kinds']}
# BankBitsINTEL got its quantifier after the grammar this library was generated from
def params(e):
    if e['enumerant']=='BankBitsINTEL': return 'LiteralInteger1'
    return ' '.join(o['kind']+Q[o.get('quantifier')] for o in e.get('parameters',[]))
out.append('#ifndef VC_SYMBOLIC\nstruct SpecOp { unsigned op; const char* name; const char* operands; };\nstatic const SpecOp specOps[] = {')
for i in sorted(ops): out.append('\t{%d, "%s", "%s"},'%(i,ops[i]['opname'],' '.join(o['kind']+Q[o.get('quantifier')] for o in ops[i].get('operands',[]))))
out.append('};\nstruct SpecParam { const char* kind; unsigned value; const char* params; };\nstatic const SpecParam specParams[] = {')
known=open('/repo/lib/source/Grammar.cpp').read()
for k in g['operand_kinds']:
    seen=set()
    for e in k.get('enumerants',[]):
        v=int(e['value'],0) if isinstance(e['value'],str) else e['value']
        if v in seen or not e.get('parameters'): continue
        seen.add(v); out.append('\t{"%s", %du, "%s"},'%(k['kind'],v,params(e)))
out.append('};')
for ext,f in (('Glsl','extinst.glsl.std.450.grammar.json'),('OpenCl','extinst.opencl.std.100.grammar.json')):
    e=json.load(open(G+f)); out.append('static const SpecOp spec%s[] = {'%ext)
    for x in e['instructions']: out.append('\t{%d, "%s", "%s"},'%(x['opcode'],x['opname'],' '.join(o['kind']+Q[o.get('quantifier')] for o in x.get('operands',[]))))
    out.append('};')
out.append('#endif')
open(os.path.join(here,'..','harness','spec_ops.inc'),'w').write('\n'.join(out)+'\n')
if __name__=='__main__':
    def body(n): return re.search(r'%s\(Op opcode\).*?\{(.*?)\n\t\}'%n,spv,re.S).group(1)
    name={n:v for v,ns in enum.items() for n in ns}
    for n,s in (('IsTypeOp',TYPE),('IsConstantOp',CONST),('IsSpecConstantOp',SPEC)):
        have={name[x] for x in re.findall(r'case Op::(\w+)',body(n))}
        print(n,len(have),len(s),'only repo',[enum[x] for x in have-s],'only spec',[enum[x] for x in s-have])
    d=open('/repo/lib/include/spvgentwo/SpvDefines.h').read()
