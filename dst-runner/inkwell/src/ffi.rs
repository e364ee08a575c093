//! The LLVM 18 C interface (opaque pointers only).
pub use std::ffi::{c_char, c_int, c_void};

macro_rules! opaque { ($($n:ident),*) => { $(pub type $n = *mut c_void;)* } }
opaque!(LLVMContextRef, LLVMModuleRef, LLVMValueRef, LLVMMemoryBufferRef, LLVMAttributeRef, LLVMExecutionEngineRef, LLVMGenericValueRef,
    LLVMTargetRef, LLVMTargetMachineRef, LLVMPassBuilderOptionsRef, LLVMErrorRef, LLVMTypeRef);

unsafe extern "C" {
    pub fn LLVMContextCreate() -> LLVMContextRef;
    pub fn LLVMContextDispose(c: LLVMContextRef);
    pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: LLVMContextRef) -> LLVMModuleRef;
    pub fn LLVMParseIRInContext(c: LLVMContextRef, b: LLVMMemoryBufferRef, m: *mut LLVMModuleRef, e: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext(c: LLVMContextRef, b: LLVMMemoryBufferRef, m: *mut LLVMModuleRef, e: *mut *mut c_char) -> c_int;
    pub fn LLVMWriteBitcodeToMemoryBuffer(m: LLVMModuleRef) -> LLVMMemoryBufferRef;
    pub fn LLVMDisposeModule(m: LLVMModuleRef);
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMDisposeErrorMessage(m: *mut c_char);
    pub fn LLVMGetErrorMessage(e: LLVMErrorRef) -> *mut c_char;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, b: *mut LLVMMemoryBufferRef, e: *mut *mut c_char) -> c_int;
    pub fn LLVMCreateMemoryBufferWithMemoryRange(d: *const c_char, n: usize, name: *const c_char, nul: c_int) -> LLVMMemoryBufferRef;
    pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, n: usize, name: *const c_char) -> LLVMMemoryBufferRef;
    pub fn LLVMGetBufferStart(b: LLVMMemoryBufferRef) -> *const c_char;
    pub fn LLVMGetBufferSize(b: LLVMMemoryBufferRef) -> usize;
    pub fn LLVMDisposeMemoryBuffer(b: LLVMMemoryBufferRef);
    pub fn LLVMVerifyModule(m: LLVMModuleRef, action: c_int, e: *mut *mut c_char) -> c_int;
    pub fn LLVMRunPasses(m: LLVMModuleRef, p: *const c_char, t: LLVMTargetMachineRef, o: LLVMPassBuilderOptionsRef) -> LLVMErrorRef;
    pub fn LLVMCreatePassBuilderOptions() -> LLVMPassBuilderOptionsRef;
    pub fn LLVMPassBuilderOptionsSetVerifyEach(o: LLVMPassBuilderOptionsRef, on: c_int);
    pub fn LLVMDisposePassBuilderOptions(o: LLVMPassBuilderOptionsRef);
    pub fn LLVMGetFirstFunction(m: LLVMModuleRef) -> LLVMValueRef;
    pub fn LLVMGetLastFunction(m: LLVMModuleRef) -> LLVMValueRef;
    pub fn LLVMGetNextFunction(f: LLVMValueRef) -> LLVMValueRef;
    pub fn LLVMGetPreviousFunction(f: LLVMValueRef) -> LLVMValueRef;
    pub fn LLVMGetNamedFunction(m: LLVMModuleRef, n: *const c_char) -> LLVMValueRef;
    pub fn LLVMGetValueName2(v: LLVMValueRef, n: *mut usize) -> *const c_char;
    pub fn LLVMGetNamedGlobal(m: LLVMModuleRef, n: *const c_char) -> LLVMValueRef;
    pub fn LLVMGetFirstGlobal(m: LLVMModuleRef) -> LLVMValueRef;
    pub fn LLVMGetLastGlobal(m: LLVMModuleRef) -> LLVMValueRef;
    pub fn LLVMGetNextGlobal(g: LLVMValueRef) -> LLVMValueRef;
    pub fn LLVMGetPreviousGlobal(g: LLVMValueRef) -> LLVMValueRef;
    pub fn LLVMIsGlobalConstant(g: LLVMValueRef) -> c_int;
    pub fn LLVMSetModuleIdentifier(m: LLVMModuleRef, n: *const c_char, l: usize);
    pub fn LLVMGetSourceFileName(m: LLVMModuleRef, n: *mut usize) -> *const c_char;
    pub fn LLVMSetTarget(m: LLVMModuleRef, t: *const c_char);
    pub fn LLVMGlobalGetValueType(f: LLVMValueRef) -> LLVMTypeRef;
    pub fn LLVMCountParamTypes(t: LLVMTypeRef) -> u32;
    pub fn LLVMIsFunctionVarArg(t: LLVMTypeRef) -> c_int;
    pub fn LLVMGetReturnType(t: LLVMTypeRef) -> LLVMTypeRef;
    pub fn LLVMGetIntTypeWidth(t: LLVMTypeRef) -> u32;
    pub fn LLVMGetTarget(m: LLVMModuleRef) -> *const c_char;
    pub fn LLVMSetDataLayout(m: LLVMModuleRef, d: *const c_char);
    pub fn LLVMCreateTargetDataLayout(t: LLVMTargetMachineRef) -> *mut c_void;
    pub fn LLVMDisposeTargetData(d: *mut c_void);
    pub fn LLVMCopyStringRepOfTargetData(d: *mut c_void) -> *mut c_char;
    pub fn LLVMCreateMessage(m: *const c_char) -> *mut c_char;
    pub fn LLVMGetTargetMachineTriple(t: LLVMTargetMachineRef) -> *mut c_char;
    pub fn LLVMGetTypeKind(t: LLVMTypeRef) -> u32;
    pub fn LLVMGetEnumAttributeAtIndex(f: LLVMValueRef, i: u32, k: u32) -> LLVMAttributeRef;
    pub fn LLVMRemoveStringAttributeAtIndex(f: LLVMValueRef, i: u32, k: *const c_char, n: u32);
    pub fn LLVMCountParams(f: LLVMValueRef) -> u32;
    pub fn LLVMGetParam(f: LLVMValueRef, i: u32) -> LLVMValueRef;
    pub fn LLVMGetFirstParam(f: LLVMValueRef) -> LLVMValueRef;
    pub fn LLVMGetLastParam(f: LLVMValueRef) -> LLVMValueRef;
    pub fn LLVMGetFirstBasicBlock(f: LLVMValueRef) -> *mut c_void;
    pub fn LLVMGetLastBasicBlock(f: LLVMValueRef) -> *mut c_void;
    pub fn LLVMGetNextBasicBlock(b: *mut c_void) -> *mut c_void;
    pub fn LLVMGetLinkage(f: LLVMValueRef) -> u32;
    pub fn LLVMIsDeclaration(f: LLVMValueRef) -> c_int;
    pub fn LLVMGetIntrinsicID(f: LLVMValueRef) -> u32;
    pub fn LLVMVerifyFunction(f: LLVMValueRef, action: c_int) -> c_int;
    pub fn LLVMIsUndef(f: LLVMValueRef) -> c_int;
    pub fn LLVMIsNull(f: LLVMValueRef) -> c_int;
    pub fn LLVMPrintModuleToString(m: LLVMModuleRef) -> *mut c_char;
    pub fn LLVMPrintValueToString(m: LLVMValueRef) -> *mut c_char;
    pub fn LLVMGetModuleIdentifier(m: LLVMModuleRef, n: *mut usize) -> *const c_char;
    pub fn LLVMCountBasicBlocks(f: LLVMValueRef) -> u32;
    pub fn LLVMGetStringAttributeAtIndex(f: LLVMValueRef, i: u32, k: *const c_char, n: u32) -> LLVMAttributeRef;
    pub fn LLVMGetAttributeCountAtIndex(f: LLVMValueRef, i: u32) -> u32;
    pub fn LLVMGetAttributesAtIndex(f: LLVMValueRef, i: u32, a: *mut LLVMAttributeRef);
    pub fn LLVMIsStringAttribute(a: LLVMAttributeRef) -> c_int;
    pub fn LLVMIsEnumAttribute(a: LLVMAttributeRef) -> c_int;
    pub fn LLVMGetStringAttributeKind(a: LLVMAttributeRef, n: *mut u32) -> *const c_char;
    pub fn LLVMGetStringAttributeValue(a: LLVMAttributeRef, n: *mut u32) -> *const c_char;
    pub fn LLVMLinkInMCJIT();
    pub fn LLVMCreateJITCompilerForModule(e: *mut LLVMExecutionEngineRef, m: LLVMModuleRef, level: u32, err: *mut *mut c_char) -> c_int;
    pub fn LLVMDisposeExecutionEngine(e: LLVMExecutionEngineRef);
    pub fn LLVMAddGlobalMapping(e: LLVMExecutionEngineRef, v: LLVMValueRef, a: *mut c_void);
    pub fn LLVMRunFunction(e: LLVMExecutionEngineRef, f: LLVMValueRef, n: u32, a: *mut LLVMGenericValueRef) -> LLVMGenericValueRef;
    pub fn LLVMGetFunctionAddress(e: LLVMExecutionEngineRef, n: *const c_char) -> u64;
    pub fn LLVMDisposeGenericValue(v: LLVMGenericValueRef);
    pub fn LLVMGenericValueToInt(v: LLVMGenericValueRef, signed: c_int) -> u64;
    pub fn LLVMGenericValueIntWidth(v: LLVMGenericValueRef) -> u32;
    pub fn LLVMGetDefaultTargetTriple() -> *mut c_char;
    pub fn LLVMGetTargetFromTriple(t: *const c_char, p: *mut LLVMTargetRef, e: *mut *mut c_char) -> c_int;
    pub fn LLVMTargetHasAsmBackend(t: LLVMTargetRef) -> c_int;
    pub fn LLVMTargetHasTargetMachine(t: LLVMTargetRef) -> c_int;
    pub fn LLVMTargetHasJIT(t: LLVMTargetRef) -> c_int;
    pub fn LLVMCreateTargetMachine(t: LLVMTargetRef, triple: *const c_char, cpu: *const c_char, feat: *const c_char, level: u32, reloc: u32, model: u32) -> LLVMTargetMachineRef;
    pub fn LLVMDisposeTargetMachine(t: LLVMTargetMachineRef);
    pub fn LLVMLoadLibraryPermanently(p: *const c_char) -> c_int;
    pub fn LLVMInitializeX86Target();
    pub fn LLVMInitializeX86TargetInfo();
    pub fn LLVMInitializeX86TargetMC();
    pub fn LLVMInitializeX86AsmPrinter();
    pub fn LLVMInitializeX86AsmParser();
}
