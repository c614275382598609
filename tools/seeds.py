# Planted bugs: written from the property text and the code, then confirmed by mkseed.py.
SEEDS = {}
def S(i, **k): SEEDS[i] = k

S('s01', property='C01', needs='i64 shift whose count is an immediate of 32 or more (any i64.shl with such a constant)',
  breaks='i64.shl by a constant >= 32 shifts by count & 31',
  edits=[('pwart/opgen_num.c', '''      case WASMOPC_i64_shl: // i64.shl
        sljit_emit_op2(m->jitc, SLJIT_SHL, a, 0, sv->val.op, sv->val.opw,
                       sv2->val.op, sv2->val.opw);''', '''      case WASMOPC_i64_shl: // i64.shl
        sljit_emit_op2(m->jitc, SLJIT_SHL, a, 0, sv->val.op, sv->val.opw,
                       sv2->val.op, sv2->val.op == SLJIT_IMM ? (sv2->val.opw & 0x1f) : sv2->val.opw);''')],
  wat={'m': '(module (func (export "f") (param i64) (result i64) (i64.shl (local.get 0) (i64.const 40))))'},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint64_t st[64]; st[0]=0x123456789;
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==0x123456789ull<<40); return 0; }''')

S('s02', property='C01', needs='i64.rem_u whose divisor sits in a stack slot while an older live operand occupies the second division register',
  breaks='the older operand in the register used for the divisor is overwritten instead of being spilled',
  edits=[('pwart/opgen_num.c', '''      case 0x82: // i64.rem_u
      {
        StackValue *sv3;
        sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
        if (sv3 != sv) {
          if (sv3 != NULL) {
            pwart_EmitSaveStack(m, sv3);
          }
          pwart_EmitLoadReg(m, sv, SLJIT_R0);
        }
        sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
        if (sv3 != sv2) {
          if (sv3 != NULL) {''', '''      case 0x82: // i64.rem_u
      {
        StackValue *sv3;
        sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
        if (sv3 != sv) {
          if (sv3 != NULL) {
            pwart_EmitSaveStack(m, sv3);
          }
          pwart_EmitLoadReg(m, sv, SLJIT_R0);
        }
        sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 2);
        if (sv3 != sv2) {
          if (sv3 != NULL && sv3 == sv2 - 1) {''')],
  wat={'m': '''(module (func (export "f") (param i64 i64 i64 i64) (result i64)
  (i64.add (local.get 0) (i64.const 1)) (i64.add (local.get 1) (i64.const 2))
  (i64.rem_u (local.get 2) (local.get 3)) (i64.add) (i64.mul)))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint64_t st[64]={10,20,107,100};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==11*(22+7)); return 0; }''')

S('s03', property='C02', needs='f64.nearest of a value exactly half way between two integers, or of a zero or small negative number', breaks='f64.nearest rounds ties up instead of to even',
  edits=[('pwart/extfunc.c', '*fp = rint(*fp); }', '*fp = *fp < 4503599627370496.0 && *fp > 0 ? floor(*fp + 0.5) : rint(*fp); }')],
  wat={'m': '(module (func (export "f") (param f64) (result f64) (f64.nearest (local.get 0))))'},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); double st[64]={2.5};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==2.0); return 0; }''')

S('s04', property='C03', needs='f64.convert_i64_u of a value of 2^63 or more whose low bit decides the rounding',
  breaks='large unsigned values are halved before the conversion and lose the sticky bit',
  edits=[('pwart/extfunc.c', '''  *fp = (double)(*(uint64_t *)fp);''', '''  uint64_t v = *(uint64_t *)fp;
  *fp = (int64_t)v >= 0 ? (double)(int64_t)v : (double)(int64_t)(v >> 1) * 2.0;''')],
  wat={'m': '(module (func (export "f") (param i64) (result f64) (f64.convert_i64_u (local.get 0))))'},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint64_t st[64]={0x8000000000000401ull}; double d;
  pwart_call_wasm_function(fn(m,"f"),st); memcpy(&d,st,8); CHECK(d==(double)0x8000000000000401ull); return 0; }''')

S('s05', property='C04', needs='a module with two memories where the access to the non-cached memory has its index in a register',
  breaks='the register holding the index is reused for the memory base',
  edits=[('pwart/opgen_mem.c', '''    a = pwart_GetFreeReg(m, RT_BASE, 0);
    sljit_emit_op1(m->jitc,SLJIT_MOV,a,0,SLJIT_IMM,(sljit_uw)&mem->bytes);''', '''    a = pwart_GetFreeReg(m, RT_BASE, m->cached_midx >= 0);
    sljit_emit_op1(m->jitc,SLJIT_MOV,a,0,SLJIT_IMM,(sljit_uw)&mem->bytes);''')],
  wat={'m': '''(module (memory 1) (memory $b 1) (func (export "f") (param i32) (result i32)
   (i32.store (i32.const 0) (i32.const 5))
   (drop (i32.load (i32.const 0))) (drop (i32.load (i32.const 0)))
   (i32.store $b (i32.add (local.get 0) (i32.const 4)) (i32.const 77))
   (i32.load $b (i32.add (local.get 0) (i32.const 4)))))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint32_t st[64]={100};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==77); return 0; }''')

S('s06', property='C05', needs='a local that is read (lazily, still in its register) below another operand and then reassigned with local.tee',
  breaks='local.tee saves only the copy directly below the top; an older pending copy of the local changes with the assignment',
  edits=[('pwart/opgen_mem.c', '''static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
  StackValue *sv, *sv2;
  StackValue *stack = m->stack;
  sv = dynarr_get(m->locals, StackValue, idx);
  // check if local variable still on stack.
  for (int i = 0; i < m->sp; i++) {''', '''static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
  StackValue *sv, *sv2;
  StackValue *stack = m->stack;
  sv = dynarr_get(m->locals, StackValue, idx);
  // check if local variable still on stack.
  for (int i = m->sp > 2 ? m->sp - 2 : 0; i < m->sp; i++) {''')],
  wat={'m': '''(module (func (export "f") (param i32) (result i32) (local i32)
   (local.set 1 (i32.const 5)) (local.get 1) (i32.add (local.get 0) (i32.const 1)) (i32.add (local.get 0) (i32.const 2))
   (local.tee 1 (i32.add (local.get 0) (i32.const 3))) (i32.mul) (i32.mul) (i32.sub)))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint32_t st[64]={10};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==5-11*12*13); return 0; }''')

S('s07', property='C06', needs='a value kept on the operand stack in a register across a loop that is entered again',
  breaks='loop does not spill the topmost operand-stack entry, so a second iteration reads a clobbered register',
  edits=[('pwart/opgen_ctl.c', '''static void opgen_GenLoop(ModuleCompiler *m,int resultType) {
  Block *block;
  pwart_EmitSaveStackAll(m);''', '''static void opgen_GenLoop(ModuleCompiler *m,int resultType) {
  Block *block;
  for (int i = 0; i < m->sp; i++) {
    pwart_EmitSaveStack(m, &m->stack[i]);
  }''')],
  wat={'m': '''(module (func (export "f") (param i32 i32) (result i32) (local i32)
   (i32.add (local.get 0) (i32.const 7))
   (loop (local.set 2 (i32.mul (i32.add (local.get 1) (local.get 1)) (i32.sub (local.get 1) (local.get 2))))
     (local.set 1 (i32.sub (local.get 1) (i32.const 1)))
     (br_if 0 (local.get 1)))
   (i32.add (local.get 2))))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint32_t st[64]={100,3};
  uint32_t a=3,b=0; do { b=(a+a)*(a-b); a--; } while(a);
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==107+b); return 0; }''')

S('s08', property='C07', needs='a tail call whose arguments are a permutation of the own parameters',
  breaks='arguments still read from the parameter area are not saved before that area is overwritten',
  edits=[('pwart/opgen_utils.c', '''  len = strlen((const char *)type->params);
  pwart_EmitSaveScratchRegisterAll(m,0);
  if ((memreg''', '''  len = strlen((const char *)type->params);
  if (len > 0) pwart_EmitSaveScratchRegisterAll(m, len == 1);
  if ((memreg''')],
  wat={'m': '''(module (func $g (param i64) (result i64) (i64.mul (local.get 0) (i64.const 3)))
   (func $k (result i64) (i64.const 5))
   (func (export "f") (param i64 i64) (result i64)
    (i64.add (local.get 0) (local.get 1)) (call $k) i64.sub))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint64_t st[64]={100,3};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==98); return 0; }''')
S('s08', **dict(SEEDS['s08'], needs='a call of a function without parameters while an intermediate value lives in a scratch register',
  breaks='the live value is not spilled before a call that takes no arguments'))

S('s09', property='C09', needs='memory.copy where the regions overlap with the destination above the source',
  breaks='overlapping copies run forward and smear the source',
  edits=[('pwart/extfunc.c', '''  uint32_t n=pwart_rstack_get_i32(&sp);
  memmove(d,s,n);''', '''  uint32_t n=pwart_rstack_get_i32(&sp);
  if((uint8_t *)d-(uint8_t *)s<8){
    memmove(d,s,n);
  }else{
    for(uint32_t i=0;i<n;i++)((volatile uint8_t *)d)[i]=((uint8_t *)s)[i];
  }''')],
  wat={'m': '''(module (memory (export "m") 1) (func (export "f") (memory.copy (i32.const 16) (i32.const 0) (i32.const 32))))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint32_t st[64]={0}; uint8_t *b=pwart_get_export_memory(m,"m")->bytes;
  for(int i=0;i<32;i++)b[i]=i; pwart_call_wasm_function(fn(m,"f"),st); for(int i=0;i<32;i++)CHECK(b[16+i]==i); return 0; }''')

S('s10', property='C08', needs='a mutable i32 global followed by another global, written with a 64-bit host register',
  breaks='global.set of an i32 comparison result stores 8 bytes and clears the neighbour global',
  edits=[('pwart/opgen_mem.c', '''  sv2 = &m->stack[m->sp];
  pwart_EmitStoreStackValue(m, sv2, SLJIT_MEM1(a), 0);
  m->sp--;
}

//pop stack top as table entry''', '''  sv2 = &m->stack[m->sp];
  if(sv2->jit_type==SVT_GENERAL && sv2->val.op==SLJIT_IMM && sv2->val.opw==0){
    sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_MEM1(a),0,SLJIT_IMM,0);
  }else{
    pwart_EmitStoreStackValue(m, sv2, SLJIT_MEM1(a), 0);
  }
  m->sp--;
}

//pop stack top as table entry''')],
  wat={'m': '''(module (global $a (mut i32) (i32.const 1)) (global $b (mut i32) (i32.const 2))
  (func (export "f") (param i32) (result i32) (global.set $b (local.get 0)) (global.set $a (i32.const 0)) (global.get $b)))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint32_t st[64]={55};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==55); return 0; }''')

S('s11', property='C10', needs='table.fill or table.set on a table other than table 0', breaks='table.fill of a later table also needs its own base; the element count is doubled',
  edits=[('pwart/opgen_mem.c', '''  opgen_GenI32Const(m,(m->target_ptr_size==32)?2:3);
  opgen_GenNumOp(m,0x74);''', '''  opgen_GenI32Const(m,(m->target_ptr_size==32 || dtab!=stab)?2:3);
  opgen_GenNumOp(m,0x74);''')],
  wat={'m': '''(module (table $a 8 externref) (table $b 8 externref)
  (func (export "f") (param externref externref) (result externref)
    (table.set $a (i32.const 0) (local.get 0)) (table.set $a (i32.const 1) (local.get 1))
    (table.copy $b $a (i32.const 2) (i32.const 0) (i32.const 2)) (table.get $b (i32.const 3))))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint64_t st[64]={0x111,0x222};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==0x222); return 0; }''')
S('s11', **dict(SEEDS['s11'], needs='table.copy between two different tables with more than one element', breaks='table.copy between two tables copies only half of the elements'))

S('s12', property='C11', needs='a function with more than nine integer locals on the machine stack',
  breaks='the last local kept on the machine stack lies outside the allocated frame and overwrites a saved register or the return address',
  edits=[('pwart/opgen_utils.c', '''                   (SLJIT_S0 - nextSr) | SLJIT_ENTER_FLOAT(SLJIT_FS0 - nextSfr),
                   nextLoc);''', '''                   (SLJIT_S0 - nextSr) | SLJIT_ENTER_FLOAT(SLJIT_FS0 - nextSfr),
                   nextLoc - (nextLoc > 64 ? 8 : 0));''')],
  wat={'m': '''(module (func (export "f") (param i64) (result i64) (local i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64)
   (local.set 1 (local.get 0)) (local.set 2 (local.get 0)) (local.set 3 (local.get 0)) (local.set 4 (local.get 0))
   (local.set 5 (local.get 0)) (local.set 6 (local.get 0)) (local.set 7 (local.get 0)) (local.set 8 (local.get 0))
   (local.set 15 (local.get 0)) (local.set 16 (local.get 0)) (local.set 14 (local.get 0)) (local.set 13 (local.get 0))
   (i64.add (local.get 8) (local.get 7))))'''},
  demo='''__attribute__((noinline)) long go(pwart_wasm_function f){ uint64_t st[64]={55};
    register long a asm("rbx")=0x1111, b asm("r12")=0x2222, c asm("r13")=0x3333, d asm("r14")=0x4444, e asm("r15")=0x5555;
    asm volatile("":"+r"(a),"+r"(b),"+r"(c),"+r"(d),"+r"(e));
    pwart_call_wasm_function(f,st);
    asm volatile("":"+r"(a),"+r"(b),"+r"(c),"+r"(d),"+r"(e));
    return a==0x1111&&b==0x2222&&c==0x3333&&d==0x4444&&e==0x5555&&st[0]==110; }
int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); CHECK(go(fn(m,"f"))); return 0; }''')

S('s13', property='C12', needs='unreachable code that contains a load or store with an explicit memory index', breaks='skipping the instruction leaves its memory index to be read as the offset, and everything after it is misread',
  edits=[('pwart/wagen.c', '    if(align&0x40){read_LEB(bytes,pos,32);}//memory index\n', '    if(align&0x40){*pos+=bytes[*pos]>>7;}//memory index\n')],
  wat={'m': '''(module (memory 1) (memory 1) (func (export "f") (param i32) (result i32) (block (br 0) (i32.store 1 offset=11 (i32.const 0) (i32.const 5))) (i32.add (local.get 0) (i32.const 7))))'''},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); int st[64]={35};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==42); return 0; }''')

S('s14', property='C12', needs='a negative i64 constant whose encoding takes nine bytes (between -2^62 and -2^55)', breaks='such a constant loses its top bit',
  edits=[('pwart/util.c', 'if (sign && (shift < maxbits) && (byte & 0x40))', 'if (sign && (shift < maxbits - 1) && (byte & 0x40))')],
  wat={'m': '(module (func (export "f") (result i64) (i64.const -3000000000000000000)))'},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); long long st[64]={35};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==-3000000000000000000ll); return 0; }''')

S('s15', property='C15', needs='a program that uses the last eight bytes of an allocated value stack', breaks='the stack is eight bytes shorter than asked for',
  edits=[('pwart/pwart.c', 'uint8_t *mem=wa_malloc(size+16);', 'uint8_t *mem=wa_malloc(size+8);')],
  cflags='-fsanitize=address',
  demo='''int main(){ char *p=pwart_allocate_stack(4096); CHECK(((size_t)p&15)==0); memset(p,7,4096); pwart_free_stack(p); return 0; }''')

S('s16', property='C15', needs='aligned stack layout and a reference result that follows a 32-bit result', breaks='the reference is read four bytes too early',
  edits=[('pwart/pwart.c', '''extern void *pwart_rstack_get_ref(void **sp){
    if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN)&&(sizeof(void *)==8)){
        size_t spv=(size_t)*sp;
        int t=(size_t)spv&7;
        if(t>0){''', '''extern void *pwart_rstack_get_ref(void **sp){
    if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN)&&(sizeof(void *)==8)){
        size_t spv=(size_t)*sp;
        int t=(size_t)spv&7;
        if(t>sizeof(int)){''')],
  wat={'m': '(module (func (export "f") (param externref) (result i32 externref) (i32.const 9) (local.get 0)))'},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); void *st[64]={(void*)0x123456789abcul}; void *sp=st;
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(pwart_rstack_get_i32(&sp)==9); CHECK(pwart_rstack_get_ref(&sp)==(void*)0x123456789abcul); return 0; }''')

S('s17', property='C17', needs='two modules, the name of the first a prefix of the name of the second', breaks='looking up or defining the longer name hits the module with the shorter one',
  edits=[('pwart/namespace.c', '        if(strcmp(m->name,name)==0){', '        if(strncmp(m->name,name,strlen(m->name))==0){')],
  demo='''static void r(struct pwart_host_module *t,struct pwart_symbol_resolve_request *q){}
int main(){ struct pwart_host_module a={r},b={r}; pwart_namespace ns=pwart_namespace_new(); pwart_namespace_define_host_module(ns,"env",&a); pwart_namespace_define_host_module(ns,"env2",&b);
  struct pwart_named_module *m=pwart_namespace_find_module(ns,"env2"); CHECK(m&&m->val.host==&b); m=pwart_namespace_find_module(ns,"env"); CHECK(m&&m->val.host==&a); return 0; }''')

S('s18', property='C17', needs='a host module defined under a name that another host module already has', breaks='the replaced host module is never detached',
  edits=[('pwart/namespace.c', '        pwart_namespace_remove_module(ns,m->name);', '        if(m->type!=mod->type)pwart_namespace_remove_module(ns,m->name);')],
  demo='''static int n; static void d(struct pwart_host_module *t){n++;}
static void r(struct pwart_host_module *t,struct pwart_symbol_resolve_request *q){}
int main(){ struct pwart_host_module a={r,0,0,d},b={r,0,0,d}; pwart_namespace ns=pwart_namespace_new(); pwart_namespace_define_host_module(ns,"env",&a); pwart_namespace_define_host_module(ns,"env",&b);
  CHECK(n==1); pwart_namespace_remove_module(ns,"env"); CHECK(n==2); return 0; }''')

S('s19', property='C13', needs='a module whose start function is an imported function', breaks='an imported start function is reported as no start function',
  edits=[('pwart/pwart.c', 'if(rc->start_function==0xffffffff){', 'if(rc->start_function==0xffffffff||rc->start_function<(uint32_t)rc->import_funcentries_count){')],
  wat={'m': '(module (import "env" "a" (func $a)) (func $b) (start $a))'},
  demo='''static void fa(void *sp){}
static void res(struct pwart_symbol_resolver *t,struct pwart_symbol_resolve_request *q){ q->result=pwart_wrap_host_function_c(fa); }
int main(){ cfg(1,2); struct pwart_symbol_resolver r={res}; int n; char *e=0,*d=slurp("m.wasm",&n); pwart_module_compiler c=pwart_new_module_compiler();
  pwart_set_symbol_resolver(c,&r); e=pwart_compile(c,d,n); CHECK(!e); pwart_module_state m=pwart_get_module_state(c); CHECK(pwart_get_start_function(m)!=NULL); return 0; }''')

S('s20', property='C13', needs='two exports whose names agree in their first 100 bytes', breaks='looking up the second finds the first',
  edits=[('pwart/modparser.c', 'strncmp(name, ename, 256)', 'strncmp(name, ename, 100)')],
  wat={'m': '(module (func (export "%sA") (result i32) (i32.const 1)) (func (export "%sB") (result i32) (i32.const 2)))' % ('n' * 100, 'n' * 100)},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); char nm[102]; memset(nm,'n',100); nm[100]='B'; nm[101]=0; int st[64];
  pwart_call_wasm_function(fn(m,nm),st); CHECK(st[0]==2); return 0; }''')

S('s21', property='C14', needs='an active data segment at an offset of 2 GiB or more', breaks='the offset is taken as a signed number',
  edits=[('pwart/modparser.c', 'memcpy(memory->bytes+offset, bytes+pos, size);', 'memcpy(memory->bytes+(int)offset, bytes+pos, size);')],
  wat={'m': '(module (import "env" "m" (memory 40000)) (data (i32.const 0x80000010) "hello"))'},
  demo='''#include <sys/mman.h>
static struct pwart_wasm_memory mem;
static void res(struct pwart_symbol_resolver *t,struct pwart_symbol_resolve_request *q){ q->result=&mem; }
int main(){ cfg(1,2); char *p=mmap(0,0x100000000,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); CHECK(p!=MAP_FAILED); mem.bytes=p+0x18000000; mem.pages=mem.maximum=40000; mem.fixed=1;
  mprotect(p,0x18000000,PROT_NONE);
  struct pwart_symbol_resolver r={res}; int n; char *e=0,*d=slurp("m.wasm",&n); pwart_module_compiler c=pwart_new_module_compiler();
  pwart_set_symbol_resolver(c,&r); e=pwart_compile(c,d,n); CHECK(!e); CHECK(!memcmp((char*)mem.bytes+0x80000010ul,"hello",5)); return 0; }''')

S('s22', property='C14', needs='an extended constant expression with an i64.mul of factors above 32 bits', breaks='the second factor is cut to 32 bits',
  edits=[('pwart/extfunc.c', '*(uint64_t *)sp=(*arg1) * (*arg2);', '*(uint64_t *)sp=(*arg1) * (uint32_t)(*arg2);')],
  wat={'m': '(module (global $g i64 (i64.mul (i64.const 3) (i64.const 0x100000002))) (func (export "f") (result i64) (global.get $g)))'},
  demo='''int main(){ cfg(1,2); pwart_module_state m=load("m.wasm"); uint64_t st[64]={0};
  pwart_call_wasm_function(fn(m,"f"),st); CHECK(st[0]==0x300000006ul); return 0; }''')

SJ = dict(srcs='sljit/sljit_src/sljitLir.c -DSLJIT_CONFIG_AUTO=1')
SJH = '#include <sljitLir.h>\n#include <stdint.h>\n'
S('s23', property='D01', needs='a shift into the count register whose source is memory addressed through that register and whose count is elsewhere', breaks='the count is moved into the register before the source is read',
  edits=[('sljit/sljit_src/sljitNativeX86_common.c', '''	if (dst == SLJIT_PREF_SHIFT_REG) {
		EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
		EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
		inst''', '''	if (dst == SLJIT_PREF_SHIFT_REG) {
		if (src1 & SLJIT_MEM) {
			EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
			EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
		} else {
			EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
			EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
		}
		inst''')],
  demo='''int main(){ static long v=5; struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS2(W,P,W),4,4,0);
  sljit_emit_op1(c,SLJIT_MOV,SLJIT_PREF_SHIFT_REG,0,SLJIT_S0,0);
  sljit_emit_op2(c,SLJIT_SHL,SLJIT_PREF_SHIFT_REG,0,SLJIT_MEM1(SLJIT_PREF_SHIFT_REG),0,SLJIT_S1,0);
  sljit_emit_return(c,SLJIT_MOV,SLJIT_PREF_SHIFT_REG,0); long (*f)(long*,long)=sljit_generate_code(c,0,0);
  static long big[64]; big[8]=7; CHECK(f(&v,3)==40); return 0; }''', **SJ)

S('s24', property='D02', needs='an in-place shift of a memory operand that sets the zero flag, with a count of zero', breaks='the zero flag is left from an earlier operation',
  edits=[('sljit/sljit_src/sljitNativeX86_common.c', '''	if (!FAST_IS_REG(dst))
		FAIL_IF(emit_cmp_binary(compiler, src1, src1w, SLJIT_IMM, 0));''', '''	if (!FAST_IS_REG(dst) && (dst != src1 || dstw != src1w))
		FAIL_IF(emit_cmp_binary(compiler, src1, src1w, SLJIT_IMM, 0));''')],
  demo='''int main(){ long v=5; struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS2(W,P,W),4,4,0);
  sljit_emit_op2u(c,SLJIT_SUB|SLJIT_SET_Z,SLJIT_S0,0,SLJIT_S0,0);
  sljit_emit_op2(c,SLJIT_SHL|SLJIT_SET_Z,SLJIT_MEM1(SLJIT_S0),0,SLJIT_MEM1(SLJIT_S0),0,SLJIT_S1,0);
  sljit_emit_op_flags(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_EQUAL);
  sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); long (*f)(long*,long)=sljit_generate_code(c,0,0);
  CHECK(f(&v,1)==0); CHECK(v==10); CHECK(f(&v,0)==0); v=0; CHECK(f(&v,0)==1); return 0; }''', **SJ)

S('s25', property='D02', needs='a flag-only AND of memory or a register other than the first with an immediate between 2^31 and 2^32', breaks='the immediate is sign extended, so bits above 32 decide the zero flag',
  edits=[('sljit/sljit_src/sljitNativeX86_common.c', '''			if (IS_HALFWORD(src2w) || compiler->mode32) {
				inst = emit_x86_instruction(compiler, 1, SLJIT_IMM, src2w, src1, src1w);''', '''			if (IS_HALFWORD(src2w) || !((sljit_uw)src2w >> 32) || compiler->mode32) {
				inst = emit_x86_instruction(compiler, 1, SLJIT_IMM, (sljit_s32)src2w, src1, src1w);''')],
  demo='''int main(){ struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS1(W,W),4,4,0);
  sljit_emit_op2u(c,SLJIT_AND|SLJIT_SET_Z,SLJIT_S0,0,SLJIT_IMM,0x80000000l);
  sljit_emit_op_flags(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_EQUAL);
  sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); long (*f)(long)=sljit_generate_code(c,0,0);
  CHECK(f(0x80000000l)==0); CHECK(f(0x100000000l)==1); return 0; }''', **SJ)

S('s26', property='D01', needs='subtracting exactly -2^31 from a 64-bit register into another register', breaks='the negated immediate does not fit and is sign extended: the result is off by 2^32',
  edits=[('sljit/sljit_src/sljitNativeX86_common.c', '''		if (src2 == SLJIT_IMM && (compiler->mode32 || IS_HALFWORD(src2w))) {
			inst = emit_x86_instruction(compiler, 1, dst_r, 0, SLJIT_MEM1(src1), (sljit_s32)src2w);''', '''		if (src2 == SLJIT_IMM && (compiler->mode32 || IS_HALFWORD(-src2w))) {
			inst = emit_x86_instruction(compiler, 1, dst_r, 0, SLJIT_MEM1(src1), (sljit_s32)src2w);''')],
  demo='''int main(){ struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS1(W,W),4,4,0);
  sljit_emit_op2(c,SLJIT_SUB,SLJIT_R0,0,SLJIT_S0,0,SLJIT_IMM,-0x80000000l);
  sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); long (*f)(long)=sljit_generate_code(c,0,0);
  CHECK(f(5)==0x80000005l); return 0; }''', **SJ)
for _i in ('s23', 's24', 's25', 's26'): SEEDS[_i]['demo'] = SJH + SEEDS[_i]['demo']

S('s27', property='D04', needs='a memory operand whose base register is r13 and whose unscaled index register is rbp (or the other way round), both with low bits 101', breaks='the pair is encoded as an absolute displacement: another address is accessed',
  edits=[('sljit/sljit_src/sljitNativeX86_64.c', '''				if ((b & OFFS_REG_MASK) && (immb & 0x3) == 0 && reg_lmap[OFFS_REG(b)] != 5)''', '''				if ((b & OFFS_REG_MASK) && (immb & 0x3) == 0 && OFFS_REG(b) != (b & REG_MASK))''')],
  demo='''int main(){ int n=0; long a[64]; for (int i=0;i<64;i++) a[i]=i*1000+7; struct sljit_compiler *c;
  for (int b=1;b<=12;b++) for (int i=1;i<=12;i++) if (b!=i) { c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS2(W,W,W),7,6,0);
   sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),0,SLJIT_S1,0); sljit_emit_op1(c,SLJIT_MOV,b,0,SLJIT_S0,0);
   sljit_free_compiler(c); c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS2(W,W_R,W_R),7,6,16);
   sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),0,SLJIT_R0,0); sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),8,SLJIT_R1,0);
   sljit_emit_op1(c,SLJIT_MOV,b,0,SLJIT_MEM1(SLJIT_SP),0); sljit_emit_op1(c,SLJIT_MOV,i,0,SLJIT_MEM1(SLJIT_SP),8);
   sljit_emit_op1(c,SLJIT_MOV_S32,SLJIT_R0,0,SLJIT_MEM2(b,i),0); sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0);
   long (*f)(long,long)=sljit_generate_code(c,0,0); n++;
   int pid=fork(), st; if(!pid) _exit(f((long)a,8*5)!=5007 || f(8*9,(long)a)!=9007); waitpid(pid,&st,0); CHECK(st==0); sljit_free_code(f,0); sljit_free_compiler(c); }
  CHECK(n==132); return 0; }''', **SJ)
SEEDS['s27']['demo'] = SEEDS['s27']['demo'].replace('''c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS2(W,W,W),7,6,0);
   sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),0,SLJIT_S1,0); sljit_emit_op1(c,SLJIT_MOV,b,0,SLJIT_S0,0);
   sljit_free_compiler(c); ''', '')

S('s28', property='D04', needs='a memory operand with the offset -129', breaks='the offset is encoded in one byte and becomes +127',
  edits=[('sljit/sljit_src/sljitNativeX86_64.c', '''				if (immb <= 127 && immb >= -128)
					inst_size''', '''				if (immb <= 127 && immb >= -129)
					inst_size'''), ('sljit/sljit_src/sljitNativeX86_64.c', '''		if (!(b & OFFS_REG_MASK) || (b & OFFS_REG_MASK) == TO_OFFS_REG(SLJIT_SP)) {
			if (immb != 0 || reg_lmap_b == 5) {
				if (immb <= 127 && immb >= -128)''', '''		if (!(b & OFFS_REG_MASK) || (b & OFFS_REG_MASK) == TO_OFFS_REG(SLJIT_SP)) {
			if (immb != 0 || reg_lmap_b == 5) {
				if (immb <= 127 && immb >= -129)''')],
  demo='''int main(){ static unsigned char a[512]; for (int i=0;i<512;i++) a[i]=i*7+i/256; struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS1(W,P),4,2,0);
  sljit_emit_op1(c,SLJIT_MOV_U8,SLJIT_R0,0,SLJIT_MEM1(SLJIT_S0),-129);
  sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); long (*f)(void*)=sljit_generate_code(c,0,0); CHECK(f(a+256)==a[127]); return 0; }''', **SJ)

S('s29', property='D03', needs='a float register of the upper half set to the constant zero', breaks='the register is xored with another one instead of with itself',
  edits=[('sljit/sljit_src/sljitNativeX86_64.c', '''		rex = freg_map[freg] >= 8 ? (REX_R | REX_B) : 0;''', '''		rex = freg_map[freg] >= 8 ? REX_R : 0;''')],
  demo='''int main(){ struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS1V(P),2|SLJIT_ENTER_FLOAT(12),1,0);
  for (int i=0;i<12;i++) sljit_emit_fop1(c,SLJIT_MOV_F64,SLJIT_FR(i),0,SLJIT_MEM1(SLJIT_S0),8*i);
  for (int i=0;i<12;i++) { sljit_emit_fset64(c,SLJIT_FR(i),0.0); sljit_emit_fop1(c,SLJIT_MOV_F64,SLJIT_MEM1(SLJIT_S0),8*i,SLJIT_FR(i),0); } sljit_emit_return_void(c);
  void (*f)(void*)=sljit_generate_code(c,0,0); uint64_t v[12]; for (int i=0;i<12;i++) v[i]=i+1; f(v); for (int i=0;i<12;i++) CHECK(v[i]==0); return 0; }''', **SJ)

S('s30', property='D05', needs='a function without saved registers but with nine scratch registers that leaves with return_to', breaks='the boundary between plain and saved scratch registers is off by one when the return address is dropped',
  edits=[('sljit/sljit_src/sljitNativeX86_64.c', '''	if (is_return_to && compiler->scratches < SLJIT_FIRST_SAVED_REG''', '''	if (is_return_to && compiler->scratches <= SLJIT_FIRST_SAVED_REG''')],
  demo='''static long J(int n){ struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS0(W),4,6,0);
  for (int i=0;i<6;i++) sljit_emit_op1(c,SLJIT_MOV,SLJIT_S(i),0,SLJIT_IMM,1<<i); struct sljit_jump *j=sljit_emit_op_addr(c,SLJIT_MOV_ADDR,SLJIT_R0,0); struct sljit_jump *k=sljit_emit_call(c,SLJIT_CALL,SLJIT_ARGS1V(W)); 
  sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,1); sljit_set_label(j,sljit_emit_label(c)); for (int i=1;i<6;i++) sljit_emit_op2(c,SLJIT_ADD,SLJIT_S0,0,SLJIT_S0,0,SLJIT_S(i),0); sljit_emit_return(c,SLJIT_MOV,SLJIT_S0,0);
  sljit_set_label(k,sljit_emit_label(c)); sljit_emit_enter(c,0,SLJIT_ARGS1V(W_R),n,0,32); for (int i=1;i<n;i++) sljit_emit_op1(c,SLJIT_MOV,SLJIT_R(i),0,SLJIT_IMM,i); sljit_emit_return_to(c,SLJIT_R0,0);
  long (*f)(void)=sljit_generate_code(c,0,0); return f(); }
  static void run(int n){ if (!fork()) _exit(J(n)==63?0:1); int st; wait(&st); CHECK(st==0); }
  int main(){ for (int n=1;n<=13;n++) run(n); return 0; }''', **SJ)

S('s31', property='D05', needs='a call in return position whose target is in the first of the saved registers', breaks='that register is restored before the call reads it',
  edits=[('sljit/sljit_src/sljitNativeX86_64.c', '''		if (src >= SLJIT_FIRST_SAVED_REG && src <= (SLJIT_S0 - SLJIT_KEPT_SAVEDS_COUNT(compiler->options))) {
			EMIT_MOV(compiler, TMP_REG2, 0, src, srcw);
			src = TMP_REG2;
		}

		FAIL_IF(emit_stack_frame_release(compiler, 0));
	}

	if ((type & 0xff) != SLJIT_CALL_REG_ARG)''', '''		if (src > SLJIT_FIRST_SAVED_REG && src <= (SLJIT_S0 - SLJIT_KEPT_SAVEDS_COUNT(compiler->options))) {
			EMIT_MOV(compiler, TMP_REG2, 0, src, srcw);
			src = TMP_REG2;
		}

		FAIL_IF(emit_stack_frame_release(compiler, 0));
	}

	if ((type & 0xff) != SLJIT_CALL_REG_ARG)''')],
  demo='''static long g(void){ return 77; }
  static long J(int r){ struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS0(W),7,6,0); sljit_emit_op1(c,SLJIT_MOV,r,0,SLJIT_IMM,(sljit_sw)g);
  sljit_emit_icall(c,SLJIT_CALL|SLJIT_CALL_RETURN,SLJIT_ARGS0(W),r,0); long (*f)(void)=sljit_generate_code(c,0,0); return f(); }
  static void run(int r){ if (!fork()) _exit(J(r)==77?0:1); int st; wait(&st); CHECK(st==0); }
  int main(){ for (int i=0;i<6;i++) run(SLJIT_S(i)); for (int i=0;i<7;i++) run(SLJIT_R(i)); return 0; }''', **SJ)

S('s32', property='D06', needs='a backward jump of exactly 128 bytes', breaks='the size reduction keeps the long form of a jump that was laid out as a short one, or the other way round',
  edits=[('sljit/sljit_src/sljitNativeX86_common.c', '(sljit_sw)(label_addr - (jump_addr + 2)) >= -0x80 &&', '(sljit_sw)(label_addr - (jump_addr + 2)) > -0x80 &&')],
  demo='''static long J(int n){ struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS1(W,W),2,1,0); sljit_u8 nop=0x90; sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,0);
  struct sljit_label *l=sljit_emit_label(c); sljit_emit_op2(c,SLJIT_ADD,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,3); for (int i=0;i<n;i++) sljit_emit_op_custom(c,&nop,1);
  sljit_emit_op2(c,SLJIT_SUB|SLJIT_SET_Z,SLJIT_S0,0,SLJIT_S0,0,SLJIT_IMM,1); sljit_set_label(sljit_emit_jump(c,SLJIT_NOT_ZERO),l); sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0);
  long (*f)(long)=sljit_generate_code(c,0,0); return f(5); }
  static void run(int n){ if (!fork()) _exit(J(n)==15?0:1); int st; wait(&st); CHECK(st==0); }
  int main(){ for (int n=90;n<140;n++) run(n); return 0; }''', **SJ)

S('s33', property='D06', needs='a jump to an aligned label in code that is serialized', breaks='the label is written with a stale index, so the jump is bound to another label after deserialize',
  edits=[('sljit/sljit_src/sljitSerialize.c', '((struct sljit_extended_label*)label)->index = i;', ';')],
  demo='''static long J(int n){ struct sljit_compiler *c=sljit_create_compiler(0); sljit_emit_enter(c,0,SLJIT_ARGS1(W,W),2,1,0); struct sljit_jump *j[8];
  for (int i=0;i<4;i++) j[i]=sljit_emit_cmp(c,SLJIT_EQUAL,SLJIT_S0,0,SLJIT_IMM,i); sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,99);
  for (int i=0;i<4;i++) { sljit_set_label(j[i], i&1 ? sljit_emit_aligned_label(c,SLJIT_LABEL_ALIGN_16,0) : sljit_emit_label(c)); sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,10+i); }
  for (int t=0;t<2;t++) { sljit_uw size; sljit_uw *b=sljit_serialize_compiler(c,0,&size); if (!b) return 0; sljit_free_compiler(c); c=sljit_deserialize_compiler(b,size,0,0); if (!c) return 0; }
  long (*f)(long)=sljit_generate_code(c,0,0); return f(n)==10+n; }
  static void run(int n){ if (!fork()) _exit(J(n)==1?0:1); int st; wait(&st); CHECK(st==0); }
  int main(){ for (int n=0;n<4;n++) run(n); return 0; }''', **SJ)

D08D = '''#include <string.h>
  static int rwx(void){ FILE *f=fopen("/proc/self/maps","r"); char l[512]; int n=0; while (fgets(l,512,f)) n+=strstr(l,"rwxp")!=0; fclose(f); return n; }
  static int H(int k,int second){ int sz[5]={1000,700,1300,900,1100}; char *p[5]; int i,j,o=k; for (i=0;i<5;i++) { p[i]=sljit_malloc_exec(sz[i]); memset(p[i],i+1,sz[i]); }
  for (i=0;i<5;i++) { int m=o%(5-i); o/=5-i; for (j=0;;j++) if (p[j] && m--==0) break; for (int x=0;x<sz[j];x++) if (p[j][x]!=j+1) return 1; sljit_free_exec(p[j]); p[j]=0;
    if (second && i==0) { sz[j]-=40; p[j]=sljit_malloc_exec(sz[j]); memset(p[j],j+1,sz[j]); second=0; i--; } }
  sljit_free_unused_memory_exec(); return rwx()!=0; }
  static void run(int k,int s){ if (!fork()) _exit(H(k,s)); int st; wait(&st); CHECK(st==0); }
  int main(){ for (int s=0;s<2;s++) for (int k=0;k<120;k++) run(k,s); return 0; }'''
S('s34', property='D08', needs='a freed block that is reused by a slightly smaller allocation, and then freed', breaks='the rest of the block is never reclaimed and its neighbours are misread',
  edits=[('sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c', '''				header = (struct block_header*)free_block;
				size = chunk_size;''', '''				header = (struct block_header*)free_block;''')], demo=D08D, **SJ)

S('s35', property='D08', needs='a block freed between a free one and a free one, and then the block after those', breaks='the block after the merged ones keeps a stale distance to its predecessor',
  edits=[('sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c', '''		sljit_remove_free_block((struct free_block*)header);
		header = AS_BLOCK_HEADER(free_block, free_block->size);
		header->prev_size = free_block->size;''', '''		sljit_remove_free_block((struct free_block*)header);
		header = AS_BLOCK_HEADER(free_block, free_block->size);''')], demo=D08D, **SJ)

S('s36', property='D09', needs='a resize to an address that is not page aligned and lies in a higher page than the start', breaks='the page that holds the new start is dropped, and with it the lowest part of what is kept',
  edits=[('sljit/sljit_src/sljitUtils.c', '''#elif defined(POSIX_MADV_DONTNEED)
	if (stack->start < new_start) {
		page_align = get_page_alignment();

		aligned_new_start = (sljit_uw)new_start & ~page_align;''', '''#elif defined(POSIX_MADV_DONTNEED)
	if (stack->start < new_start) {
		page_align = get_page_alignment();

		aligned_new_start = ((sljit_uw)new_start + page_align) & ~page_align;''')],
  demo='''#include <sys/mman.h>
  static char *lim; static int bad, n;
  int madvise(void *a, size_t l, int how) { n++; if (l && (char*)a + l > lim) bad=1; return 0; }
  int posix_madvise(void *a, size_t l, int how) { n++; if (l && (char*)a + l > lim) bad=1; return 0; }
  int main(){ struct sljit_stack *s=sljit_allocate_stack(60000,100000,0); for (int i=0;i<40000;i+=100) { lim=(char*)s->end-60000+i; CHECK(sljit_stack_resize(s,(sljit_u8*)lim)==(sljit_u8*)lim); CHECK(!bad); if (i%1000==0) { lim=(char*)s->min_start; sljit_stack_resize(s,(sljit_u8*)lim); CHECK(!bad); } }
  CHECK(n>0); return 0; }''', **SJ)

S('s37', property='D09', needs='releasing a stack that was not grown to its maximum', breaks='only the part in use is unmapped, the reserved rest leaks',
  edits=[('sljit/sljit_src/sljitUtils.c', '''	munmap((void*)stack->min_start, (size_t)(stack->end - stack->min_start));''', '''	munmap((void*)stack->start, (size_t)(stack->end - stack->start));''')],
  demo='''#include <sys/mman.h>
  int main(){ for (int i=1;i<6;i++) { struct sljit_stack *s=sljit_allocate_stack(4096*i,1<<20,0); char *m=(char*)s->min_start; CHECK(msync(m,1<<20,MS_ASYNC)==0); sljit_free_stack(s,0); for (int k=0;k<256;k++) CHECK(msync(m+4096*k,4096,MS_ASYNC)!=0); } return 0; }''', **SJ)

SR = dict(srcs='sljit/sljit_src/sljitLir.c sljit/regex_src/regexJIT.c -I sljit/regex_src -DSLJIT_CONFIG_AUTO=1')
RX = """#include <regexJIT.h>
static int find(const char *p, int fl, const char *s, int *e) { int er, id; struct regex_machine *m = regex_compile(p, strlen(p), fl, &er); struct regex_match *t = regex_begin_match(m);
  regex_continue_match(t, s, strlen(s)); int b = regex_get_result(t, e, &id); regex_free_match(t); regex_free_machine(m); return b; }
"""
S('s38', property='E01', needs='a pattern anchored to line starts, a first line without a match, and a carriage return as its end', breaks='the fast forward loop does not stop at a carriage return and runs over the start of the line',
  edits=[('sljit/regex_src/regexJIT.c', """				EMIT_CMP(jump, SLJIT_EQUAL, R_CURR_CHAR, 0, SLJIT_IMM, '\\n');
				sljit_set_label(jump, fast_forward_label);
				EMIT_CMP(jump, SLJIT_EQUAL, R_CURR_CHAR, 0, SLJIT_IMM, '\\r');
				sljit_set_label(jump, fast_forward_label);
""", """				EMIT_CMP(jump, SLJIT_EQUAL, R_CURR_CHAR, 0, SLJIT_IMM, '\\n');
				sljit_set_label(jump, fast_forward_label);
""")],
  demo=RX + """int main(){ int e; CHECK(find("^ab",4,"xyz\\rabq",&e)==4 && e==6); CHECK(find("^ab",4,"xyz\\nabq",&e)==4 && e==6); CHECK(find("^ab",4,"ab",&e)==0 && e==2); CHECK(find("^ab",4,"xab\\rb",&e)==-1); return 0; }""", **SR)

S('s39', property='E01', needs='a match that begins, after other characters, with the last character of a range', breaks='the fast forward loop skips the upper end of a range',
  edits=[('sljit/regex_src/regexJIT.c', """						EMIT_CMP(jump, SLJIT_LESS_EQUAL, R_TEMP, 0, SLJIT_IMM, dfa_transitions[ind + 1].value - dfa_transitions[ind].value);
						sljit_set_label(jump, fast_forward_label);""", """						EMIT_CMP(jump, SLJIT_LESS, R_TEMP, 0, SLJIT_IMM, dfa_transitions[ind + 1].value - dfa_transitions[ind].value);
						sljit_set_label(jump, fast_forward_label);""")],
  demo=RX + """int main(){ int e; CHECK(find("[b-f]x",0,"zzfxq",&e)==2 && e==4); CHECK(find("[b-f]x",0,"zzbxq",&e)==2 && e==4); CHECK(find("[b-f]x",0,"zzgxq",&e)==-1); return 0; }""", **SR)

S('s40', property='F01', needs='a C callback with two or more arguments of which one before the last has four bytes', breaks='the arguments of a callback are packed instead of placed in slots of eight bytes',
  edits=[('pwart_syslib/libffi.c', """        memcpy(sp,args[i],size);
        sp=sp+8;""", """        memcpy(sp,args[i],size);
        sp=sp+size;""")],
  demo="""#define PWART_SYSLIB_LIBFFI_ENABLED 1
#include "../pwart_syslib/libffi.c"
static int bad = 0, n = 0;
static void cb(void *fp) { void *sp = fp; pwart_rstack_get_ref(&sp); long *ret = pwart_rstack_get_ref(&sp); char *a = pwart_rstack_get_ref(&sp); if (*(int *)a != 7 || *(double *)(a + 8) != 2.5 || *(int *)(a + 16) != 9) bad = 1; n++; *ret = 5; }
int main(){ unsigned char st[256]; void *sp = st; pwart_rstack_put_ref(&sp, "idi>i"); wasm__ffix_new_cif(st); sp = st; void *cif = pwart_rstack_get_ref(&sp);
  sp = st; pwart_rstack_put_ref(&sp, cif); pwart_rstack_put_ref(&sp, pwart_wrap_host_function_c(cb)); pwart_rstack_put_ref(&sp, 0); wasm__ffix_new_c_callback(st); sp = st; pwart_rstack_get_ref(&sp); int (*f)(int, double, int) = pwart_rstack_get_ref(&sp);
  CHECK(f(7, 2.5, 9) == 5); CHECK(n == 1); CHECK(!bad); return 0; }""", srcs='pwart/pwart.c sljit/sljit_src/sljitLir.c -DSLJIT_CONFIG_AUTO=1 -lffi')

for _i in ('s27', 's28', 's29', 's30', 's31', 's32', 's33', 's34', 's35', 's36', 's37'): SEEDS[_i]['demo'] = SJH + '#include <unistd.h>\n#include <sys/wait.h>\n' + SEEDS[_i]['demo']
