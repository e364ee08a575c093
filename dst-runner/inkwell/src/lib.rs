//! A stand-in for the part of the inkwell crate that qir-runner uses (and some of what it plausibly might),
//! over the C interface of the installed LLVM 18. Signatures and behaviour follow inkwell 0.6.
#![allow(non_snake_case, clippy::missing_safety_doc)]

pub mod ffi;
use ffi::*;

pub mod llvm_sys {
    pub mod core {
        pub use crate::ffi::LLVMCreateMemoryBufferWithMemoryRange;
    }
    pub mod ir_reader {
        pub use crate::ffi::LLVMParseIRInContext;
    }
    pub mod prelude {
        pub use crate::ffi::*;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    #[default]
    Default = 2,
    Aggressive = 3,
}

pub mod support {
    use super::*;
    use std::ffi::{CStr, CString};
    use std::fmt;
    use std::ops::Deref;
    use std::path::Path;

    /// A string owned by LLVM.
    pub struct LLVMString {
        ptr: *const c_char,
        error: bool,
    }
    impl LLVMString {
        pub(crate) fn new(ptr: *const c_char) -> Self {
            LLVMString { ptr, error: false }
        }
        pub(crate) fn of_error(ptr: *const c_char) -> Self {
            LLVMString { ptr, error: true }
        }
    }
    impl Deref for LLVMString {
        type Target = CStr;
        fn deref(&self) -> &CStr {
            if self.ptr.is_null() { c"" } else { unsafe { CStr::from_ptr(self.ptr) } }
        }
    }
    impl fmt::Display for LLVMString {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.to_string_lossy())
        }
    }
    impl fmt::Debug for LLVMString {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{:?}", self.deref())
        }
    }
    impl std::error::Error for LLVMString {}
    impl PartialEq for LLVMString {
        fn eq(&self, o: &Self) -> bool {
            **self == **o
        }
    }
    impl Eq for LLVMString {}
    impl Drop for LLVMString {
        fn drop(&mut self) {
            if !self.ptr.is_null() {
                unsafe {
                    if self.error {
                        LLVMDisposeErrorMessage(self.ptr as *mut _)
                    } else {
                        LLVMDisposeMessage(self.ptr as *mut _)
                    }
                }
            }
        }
    }

    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum LoadLibraryError {
        UnicodeError,
        LoadingError,
    }
    impl fmt::Display for LoadLibraryError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for LoadLibraryError {}

    pub fn load_library_permanently(path: &Path) -> Result<(), LoadLibraryError> {
        let c = CString::new(path.to_str().ok_or(LoadLibraryError::UnicodeError)?).map_err(|_| LoadLibraryError::UnicodeError)?;
        if unsafe { LLVMLoadLibraryPermanently(c.as_ptr()) } == 1 { Err(LoadLibraryError::LoadingError) } else { Ok(()) }
    }
}

pub mod context {
    use super::*;
    use crate::memory_buffer::MemoryBuffer;
    use crate::module::Module;
    use crate::support::LLVMString;
    use std::ptr::null_mut;

    #[derive(Debug)]
    pub struct Context {
        pub(crate) ptr: LLVMContextRef,
    }
    impl Context {
        pub fn create() -> Self {
            Context { ptr: unsafe { LLVMContextCreate() } }
        }
        pub fn create_module_from_ir(&self, buffer: MemoryBuffer) -> Result<Module<'_>, LLVMString> {
            let (mut m, mut e) = (null_mut(), null_mut());
            let code = unsafe { LLVMParseIRInContext(self.ptr, buffer.ptr, &mut m, &mut e) };
            std::mem::forget(buffer);
            if code == 0 { Ok(Module::new(m)) } else { Err(LLVMString::new(e)) }
        }
        pub fn create_module<'c>(&'c self, name: &str) -> Module<'c> {
            let c = std::ffi::CString::new(name).unwrap();
            Module::new(unsafe { LLVMModuleCreateWithNameInContext(c.as_ptr(), self.ptr) })
        }
    }
    impl Drop for Context {
        fn drop(&mut self) {
            unsafe { LLVMContextDispose(self.ptr) }
        }
    }
}

pub mod memory_buffer {
    use super::*;
    use crate::support::LLVMString;
    use std::ffi::CString;
    use std::path::Path;
    use std::ptr::null_mut;

    #[derive(Debug)]
    pub struct MemoryBuffer {
        pub(crate) ptr: LLVMMemoryBufferRef,
    }
    impl MemoryBuffer {
        pub unsafe fn new(ptr: LLVMMemoryBufferRef) -> Self {
            MemoryBuffer { ptr }
        }
        pub fn as_mut_ptr(&self) -> LLVMMemoryBufferRef {
            self.ptr
        }
        pub fn create_from_file(path: &Path) -> Result<Self, LLVMString> {
            let c = CString::new(path.to_str().expect("Did not find a valid Unicode path string")).expect("Could not convert path to CString");
            let (mut b, mut e) = (null_mut(), null_mut());
            if unsafe { LLVMCreateMemoryBufferWithContentsOfFile(c.as_ptr(), &mut b, &mut e) } == 1 {
                Err(LLVMString::new(e))
            } else {
                Ok(MemoryBuffer { ptr: b })
            }
        }
        pub fn create_from_memory_range(input: &[u8], name: &str) -> Self {
            let c = CString::new(name).unwrap();
            MemoryBuffer { ptr: unsafe { LLVMCreateMemoryBufferWithMemoryRange(input.as_ptr().cast(), input.len(), c.as_ptr(), 0) } }
        }
        pub fn create_from_memory_range_copy(input: &[u8], name: &str) -> Self {
            let c = CString::new(name).unwrap();
            MemoryBuffer { ptr: unsafe { LLVMCreateMemoryBufferWithMemoryRangeCopy(input.as_ptr().cast(), input.len(), c.as_ptr()) } }
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.ptr).cast(), LLVMGetBufferSize(self.ptr)) }
        }
        pub fn get_size(&self) -> usize {
            unsafe { LLVMGetBufferSize(self.ptr) }
        }
    }
    impl Drop for MemoryBuffer {
        fn drop(&mut self) {
            unsafe { LLVMDisposeMemoryBuffer(self.ptr) }
        }
    }
}

pub mod attributes {
    use super::*;
    use std::ffi::CStr;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum AttributeLoc {
        Return,
        Param(u32),
        Function,
    }
    impl AttributeLoc {
        pub(crate) fn get_index(self) -> u32 {
            match self {
                AttributeLoc::Return => 0,
                AttributeLoc::Param(i) => i + 1,
                AttributeLoc::Function => u32::MAX,
            }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct Attribute {
        pub(crate) ptr: LLVMAttributeRef,
    }
    impl Attribute {
        pub fn is_string(self) -> bool {
            unsafe { LLVMIsStringAttribute(self.ptr) == 1 }
        }
        pub fn is_enum(self) -> bool {
            unsafe { LLVMIsEnumAttribute(self.ptr) == 1 }
        }
        pub fn get_string_kind_id(&self) -> &CStr {
            assert!(self.is_string());
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetStringAttributeKind(self.ptr, &mut n)) }
        }
        pub fn get_string_value(&self) -> &CStr {
            assert!(self.is_string());
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetStringAttributeValue(self.ptr, &mut n)) }
        }
    }
}

pub mod values {
    use super::*;
    use crate::attributes::{Attribute, AttributeLoc};
    use std::ffi::CStr;
    use std::marker::PhantomData;

    pub trait AsValueRef {
        fn as_value_ref(&self) -> LLVMValueRef;
    }
    pub trait AnyValue<'ctx>: AsValueRef {}

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct BasicValueEnum<'ctx> {
        pub(crate) ptr: LLVMValueRef,
        _m: PhantomData<&'ctx ()>,
    }
    impl AsValueRef for BasicValueEnum<'_> {
        fn as_value_ref(&self) -> LLVMValueRef {
            self.ptr
        }
    }
    impl<'ctx> AnyValue<'ctx> for BasicValueEnum<'ctx> {}

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct FunctionValue<'ctx> {
        pub(crate) ptr: LLVMValueRef,
        _m: PhantomData<&'ctx ()>,
    }
    impl AsValueRef for FunctionValue<'_> {
        fn as_value_ref(&self) -> LLVMValueRef {
            self.ptr
        }
    }
    impl<'ctx> AnyValue<'ctx> for FunctionValue<'ctx> {}
    impl<'ctx> FunctionValue<'ctx> {
        pub unsafe fn new(ptr: LLVMValueRef) -> Option<Self> {
            if ptr.is_null() { None } else { Some(FunctionValue { ptr, _m: PhantomData }) }
        }
        pub fn get_next_function(self) -> Option<Self> {
            unsafe { Self::new(LLVMGetNextFunction(self.ptr)) }
        }
        pub fn get_previous_function(self) -> Option<Self> {
            unsafe { Self::new(LLVMGetPreviousFunction(self.ptr)) }
        }
        pub fn get_name(&self) -> &CStr {
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetValueName2(self.ptr, &mut n)) }
        }
        pub fn count_params(self) -> u32 {
            unsafe { LLVMCountParams(self.ptr) }
        }
        pub fn get_params(self) -> Vec<BasicValueEnum<'ctx>> {
            (0..self.count_params()).map(|i| BasicValueEnum { ptr: unsafe { LLVMGetParam(self.ptr, i) }, _m: PhantomData }).collect()
        }
        pub fn get_nth_param(self, i: u32) -> Option<BasicValueEnum<'ctx>> {
            self.get_param_iter().nth(i as usize)
        }
        pub fn get_first_param(self) -> Option<BasicValueEnum<'ctx>> {
            self.get_param_iter().next()
        }
        pub fn get_last_param(self) -> Option<BasicValueEnum<'ctx>> {
            self.get_param_iter().last()
        }
        pub fn get_param_iter(self) -> impl Iterator<Item = BasicValueEnum<'ctx>> {
            self.get_params().into_iter()
        }
        pub fn get_first_basic_block(self) -> Option<crate::basic_block::BasicBlock<'ctx>> {
            crate::basic_block::BasicBlock::new(unsafe { LLVMGetFirstBasicBlock(self.ptr) })
        }
        pub fn get_last_basic_block(self) -> Option<crate::basic_block::BasicBlock<'ctx>> {
            crate::basic_block::BasicBlock::new(unsafe { LLVMGetLastBasicBlock(self.ptr) })
        }
        pub fn get_basic_block_iter(self) -> impl Iterator<Item = crate::basic_block::BasicBlock<'ctx>> {
            std::iter::successors(self.get_first_basic_block(), |b| b.get_next_basic_block())
        }
        pub fn get_basic_blocks(self) -> Vec<crate::basic_block::BasicBlock<'ctx>> {
            self.get_basic_block_iter().collect()
        }
        pub fn get_intrinsic_id(self) -> u32 {
            unsafe { LLVMGetIntrinsicID(self.ptr) }
        }
        pub fn is_null(self) -> bool {
            unsafe { LLVMIsNull(self.ptr) == 1 }
        }
        pub fn is_undef(self) -> bool {
            unsafe { LLVMIsUndef(self.ptr) == 1 }
        }
        pub fn verify(self, print: bool) -> bool {
            unsafe { LLVMVerifyFunction(self.ptr, if print { 1 } else { 2 }) == 0 }
        }
        pub fn print_to_string(self) -> crate::support::LLVMString {
            crate::support::LLVMString::new(unsafe { LLVMPrintValueToString(self.ptr) })
        }
        pub fn count_basic_blocks(self) -> u32 {
            unsafe { LLVMCountBasicBlocks(self.ptr) }
        }
        pub fn get_type(self) -> crate::types::FunctionType<'ctx> {
            crate::types::FunctionType::new(unsafe { LLVMGlobalGetValueType(self.ptr) })
        }
        pub fn get_linkage(self) -> crate::module::Linkage {
            crate::module::Linkage::of(unsafe { LLVMGetLinkage(self.ptr) })
        }
        pub fn as_global_value(self) -> GlobalValue<'ctx> {
            GlobalValue { ptr: self.ptr, _m: PhantomData }
        }
        pub fn get_enum_attribute(self, loc: AttributeLoc, kind_id: u32) -> Option<Attribute> {
            let ptr = unsafe { LLVMGetEnumAttributeAtIndex(self.ptr, loc.get_index(), kind_id) };
            if ptr.is_null() { None } else { Some(Attribute { ptr }) }
        }
        pub fn remove_string_attribute(self, loc: AttributeLoc, key: &str) {
            unsafe { LLVMRemoveStringAttributeAtIndex(self.ptr, loc.get_index(), key.as_ptr().cast(), key.len() as u32) }
        }
        pub fn get_string_attribute(self, loc: AttributeLoc, key: &str) -> Option<Attribute> {
            let ptr = unsafe { LLVMGetStringAttributeAtIndex(self.ptr, loc.get_index(), key.as_ptr().cast(), key.len() as u32) };
            if ptr.is_null() { None } else { Some(Attribute { ptr }) }
        }
        pub fn count_attributes(self, loc: AttributeLoc) -> u32 {
            unsafe { LLVMGetAttributeCountAtIndex(self.ptr, loc.get_index()) }
        }
        pub fn attributes(self, loc: AttributeLoc) -> Vec<Attribute> {
            let n = self.count_attributes(loc) as usize;
            let mut v = vec![std::ptr::null_mut(); n];
            unsafe { LLVMGetAttributesAtIndex(self.ptr, loc.get_index(), v.as_mut_ptr()) };
            v.into_iter().map(|ptr| Attribute { ptr }).collect()
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct GlobalValue<'ctx> {
        pub(crate) ptr: LLVMValueRef,
        _m: PhantomData<&'ctx ()>,
    }
    impl AsValueRef for GlobalValue<'_> {
        fn as_value_ref(&self) -> LLVMValueRef {
            self.ptr
        }
    }
    impl<'ctx> AnyValue<'ctx> for GlobalValue<'ctx> {}
    impl GlobalValue<'_> {
        pub unsafe fn new(ptr: LLVMValueRef) -> Option<Self> {
            if ptr.is_null() { None } else { Some(GlobalValue { ptr, _m: PhantomData }) }
        }
        pub fn get_name(&self) -> &CStr {
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetValueName2(self.ptr, &mut n)) }
        }
        pub fn get_next_global(self) -> Option<Self> {
            unsafe { Self::new(LLVMGetNextGlobal(self.ptr)) }
        }
        pub fn get_previous_global(self) -> Option<Self> {
            unsafe { Self::new(LLVMGetPreviousGlobal(self.ptr)) }
        }
        pub fn is_constant(self) -> bool {
            unsafe { LLVMIsGlobalConstant(self.ptr) == 1 }
        }
        pub fn is_declaration(self) -> bool {
            unsafe { LLVMIsDeclaration(self.ptr) == 1 }
        }
        pub fn get_linkage(self) -> crate::module::Linkage {
            crate::module::Linkage::of(unsafe { LLVMGetLinkage(self.ptr) })
        }
    }

    #[derive(Debug)]
    pub struct GenericValue<'ctx> {
        pub(crate) ptr: LLVMGenericValueRef,
        pub(crate) _m: PhantomData<&'ctx ()>,
    }
    impl GenericValue<'_> {
        pub fn as_int(self, signed: bool) -> u64 {
            unsafe { LLVMGenericValueToInt(self.ptr, signed as i32) }
        }
        pub fn int_width(self) -> u32 {
            unsafe { LLVMGenericValueIntWidth(self.ptr) }
        }
    }
    impl Drop for GenericValue<'_> {
        fn drop(&mut self) {
            unsafe { LLVMDisposeGenericValue(self.ptr) }
        }
    }
}

pub mod types {
    use super::*;
    use std::marker::PhantomData;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct FunctionType<'ctx> {
        ptr: LLVMTypeRef,
        _m: PhantomData<&'ctx ()>,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct BasicTypeEnum<'ctx> {
        ptr: LLVMTypeRef,
        _m: PhantomData<&'ctx ()>,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct IntType<'ctx> {
        ptr: LLVMTypeRef,
        _m: PhantomData<&'ctx ()>,
    }
    impl IntType<'_> {
        pub fn get_bit_width(self) -> u32 {
            unsafe { LLVMGetIntTypeWidth(self.ptr) }
        }
    }
    impl<'ctx> BasicTypeEnum<'ctx> {
        pub fn into_int_type(self) -> IntType<'ctx> {
            assert!(self.is_int_type(), "not an integer type");
            IntType { ptr: self.ptr, _m: PhantomData }
        }
        pub fn is_float_type(self) -> bool {
            unsafe { matches!(LLVMGetTypeKind(self.ptr), 1..=6) }
        }
        pub fn is_struct_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.ptr) == 10 }
        }
        pub fn is_array_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.ptr) == 11 }
        }
        pub fn is_vector_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.ptr) == 13 }
        }
        pub fn is_int_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.ptr) == 8 }
        }
        pub fn is_pointer_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.ptr) == 12 }
        }
    }
    impl<'ctx> FunctionType<'ctx> {
        pub(crate) fn new(ptr: LLVMTypeRef) -> Self {
            FunctionType { ptr, _m: PhantomData }
        }
        pub fn count_param_types(self) -> u32 {
            unsafe { LLVMCountParamTypes(self.ptr) }
        }
        pub fn is_var_arg(self) -> bool {
            unsafe { LLVMIsFunctionVarArg(self.ptr) != 0 }
        }
        /// None for a function that returns nothing.
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'ctx>> {
            let ptr = unsafe { LLVMGetReturnType(self.ptr) };
            if unsafe { LLVMGetTypeKind(ptr) } == 0 { None } else { Some(BasicTypeEnum { ptr, _m: PhantomData }) }
        }
    }
}

pub mod basic_block {
    use super::*;
    use std::marker::PhantomData;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct BasicBlock<'ctx> {
        ptr: *mut std::ffi::c_void,
        _m: PhantomData<&'ctx ()>,
    }
    impl<'ctx> BasicBlock<'ctx> {
        pub(crate) fn new(ptr: *mut std::ffi::c_void) -> Option<Self> {
            if ptr.is_null() { None } else { Some(BasicBlock { ptr, _m: PhantomData }) }
        }
        pub fn get_next_basic_block(self) -> Option<Self> {
            Self::new(unsafe { LLVMGetNextBasicBlock(self.ptr) })
        }
    }
}

pub mod module {
    use super::*;
    use crate::context::Context;
    use crate::execution_engine::{ExecutionEngine, Owner};
    use crate::memory_buffer::MemoryBuffer;
    use crate::passes::PassBuilderOptions;
    use crate::support::LLVMString;
    use crate::targets::{InitializationConfig, Target, TargetMachine};
    use crate::values::{FunctionValue, GlobalValue};
    use std::cell::RefCell;
    use std::ffi::CString;
    use std::marker::PhantomData;
    use std::path::Path;
    use std::ptr::null_mut;
    use std::rc::Rc;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Linkage {
        Appending,
        AvailableExternally,
        Common,
        DLLExport,
        DLLImport,
        External,
        ExternalWeak,
        Ghost,
        Internal,
        LinkerPrivate,
        LinkerPrivateWeak,
        LinkOnceAny,
        LinkOnceODRAutoHide,
        LinkOnceODR,
        Private,
        WeakAny,
        WeakODR,
    }
    impl Linkage {
        pub(crate) fn of(n: u32) -> Self {
            use Linkage::*;
            [
                External, AvailableExternally, LinkOnceAny, LinkOnceODR, LinkOnceODRAutoHide, WeakAny, WeakODR, Appending, Internal, Private,
                DLLImport, DLLExport, ExternalWeak, Ghost, Common, LinkerPrivate, LinkerPrivateWeak,
            ][n as usize]
        }
    }

    #[derive(Debug)]
    pub struct Module<'ctx> {
        pub(crate) ptr: LLVMModuleRef,
        owner: RefCell<Option<Rc<Owner>>>,
        _m: PhantomData<&'ctx Context>,
    }
    impl<'ctx> Module<'ctx> {
        pub(crate) fn new(ptr: LLVMModuleRef) -> Self {
            Module { ptr, owner: RefCell::new(None), _m: PhantomData }
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut e = null_mut();
            let code = unsafe { LLVMVerifyModule(self.ptr, 2, &mut e) };
            let s = LLVMString::new(e);
            if code == 1 { Err(s) } else { Ok(()) }
        }
        pub fn create_jit_execution_engine(&self, level: OptimizationLevel) -> Result<ExecutionEngine<'ctx>, LLVMString> {
            Target::initialize_native(&InitializationConfig::default()).expect("native target");
            let (mut ee, mut e) = (null_mut(), null_mut());
            assert!(self.owner.borrow().is_none(), "module already owned by an execution engine");
            unsafe { LLVMLinkInMCJIT() };
            if unsafe { LLVMCreateJITCompilerForModule(&mut ee, self.ptr, level as u32, &mut e) } == 1 {
                return Err(LLVMString::new(e));
            }
            let owner = Rc::new(Owner { ptr: ee });
            *self.owner.borrow_mut() = Some(owner.clone());
            Ok(ExecutionEngine::new(owner))
        }
        pub fn parse_bitcode_from_buffer(buffer: &MemoryBuffer, context: &'ctx Context) -> Result<Self, LLVMString> {
            let (mut m, mut e) = (null_mut(), null_mut());
            if unsafe { LLVMParseBitcodeInContext(context.ptr, buffer.ptr, &mut m, &mut e) } != 0 {
                return Err(LLVMString::new(e));
            }
            Ok(Module::new(m))
        }
        pub fn parse_bitcode_from_path(path: impl AsRef<Path>, context: &'ctx Context) -> Result<Self, LLVMString> {
            let b = MemoryBuffer::create_from_file(path.as_ref())?;
            Self::parse_bitcode_from_buffer(&b, context)
        }
        pub fn write_bitcode_to_memory(&self) -> MemoryBuffer {
            unsafe { MemoryBuffer::new(LLVMWriteBitcodeToMemoryBuffer(self.ptr)) }
        }
        pub fn run_passes(&self, passes: &str, machine: &TargetMachine, options: PassBuilderOptions) -> Result<(), LLVMString> {
            let c = CString::new(passes).unwrap();
            let e = unsafe { LLVMRunPasses(self.ptr, c.as_ptr(), machine.ptr, options.ptr) };
            if e.is_null() { Ok(()) } else { Err(LLVMString::of_error(unsafe { LLVMGetErrorMessage(e) })) }
        }
        pub fn get_first_function(&self) -> Option<FunctionValue<'ctx>> {
            unsafe { FunctionValue::new(LLVMGetFirstFunction(self.ptr)) }
        }
        pub fn get_last_function(&self) -> Option<FunctionValue<'ctx>> {
            unsafe { FunctionValue::new(LLVMGetLastFunction(self.ptr)) }
        }
        pub fn get_function(&self, name: &str) -> Option<FunctionValue<'ctx>> {
            let c = CString::new(name).unwrap();
            unsafe { FunctionValue::new(LLVMGetNamedFunction(self.ptr, c.as_ptr())) }
        }
        pub fn get_name(&self) -> &std::ffi::CStr {
            let mut n = 0;
            unsafe { std::ffi::CStr::from_ptr(LLVMGetModuleIdentifier(self.ptr, &mut n)) }
        }
        pub fn get_global(&self, name: &str) -> Option<GlobalValue<'ctx>> {
            let c = CString::new(name).unwrap();
            unsafe { GlobalValue::new(LLVMGetNamedGlobal(self.ptr, c.as_ptr())) }
        }
        pub fn get_first_global(&self) -> Option<GlobalValue<'ctx>> {
            unsafe { GlobalValue::new(LLVMGetFirstGlobal(self.ptr)) }
        }
        pub fn get_last_global(&self) -> Option<GlobalValue<'ctx>> {
            unsafe { GlobalValue::new(LLVMGetLastGlobal(self.ptr)) }
        }
        pub fn get_globals(&self) -> impl Iterator<Item = GlobalValue<'ctx>> {
            std::iter::successors(self.get_first_global(), |g| g.get_next_global())
        }
        pub fn set_name(&self, name: &str) {
            unsafe { LLVMSetModuleIdentifier(self.ptr, name.as_ptr().cast(), name.len()) }
        }
        pub fn get_source_file_name(&self) -> &std::ffi::CStr {
            let mut n = 0;
            unsafe { std::ffi::CStr::from_ptr(LLVMGetSourceFileName(self.ptr, &mut n)) }
        }
        pub fn set_data_layout(&self, layout: &crate::targets::DataLayout) {
            unsafe { LLVMSetDataLayout(self.ptr, layout.as_str().as_ptr()) }
        }
        pub fn get_triple(&self) -> crate::targets::TargetTriple {
            let c = unsafe { std::ffi::CStr::from_ptr(LLVMGetTarget(self.ptr)) };
            crate::targets::TargetTriple::create(&c.to_string_lossy())
        }
        pub fn set_triple(&self, triple: &crate::targets::TargetTriple) {
            unsafe { LLVMSetTarget(self.ptr, triple.as_str().as_ptr()) }
        }
        pub fn print_to_string(&self) -> LLVMString {
            LLVMString::new(unsafe { LLVMPrintModuleToString(self.ptr) })
        }
        pub fn get_functions(&self) -> FunctionIterator<'ctx> {
            FunctionIterator(self.get_first_function())
        }
    }
    impl Drop for Module<'_> {
        fn drop(&mut self) {
            if self.owner.borrow_mut().take().is_none() {
                unsafe { LLVMDisposeModule(self.ptr) }
            }
        }
    }
    pub struct FunctionIterator<'ctx>(Option<FunctionValue<'ctx>>);
    impl<'ctx> Iterator for FunctionIterator<'ctx> {
        type Item = FunctionValue<'ctx>;
        fn next(&mut self) -> Option<Self::Item> {
            let f = self.0;
            self.0 = f.and_then(FunctionValue::get_next_function);
            f
        }
    }
}

pub mod execution_engine {
    use super::*;
    use crate::values::{AnyValue, FunctionValue, GenericValue};
    use std::ffi::CString;
    use std::marker::PhantomData;
    use std::rc::Rc;

    /// The engine owns its module; both go when the last holder does.
    #[derive(Debug)]
    pub(crate) struct Owner {
        pub(crate) ptr: LLVMExecutionEngineRef,
    }
    impl Drop for Owner {
        fn drop(&mut self) {
            unsafe { LLVMDisposeExecutionEngine(self.ptr) }
        }
    }
    #[derive(Debug, Clone)]
    pub struct ExecutionEngine<'ctx> {
        owner: Rc<Owner>,
        _m: PhantomData<&'ctx ()>,
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum FunctionLookupError {
        JITNotEnabled,
        FunctionNotFound,
    }
    impl std::fmt::Display for FunctionLookupError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for FunctionLookupError {}
    impl<'ctx> ExecutionEngine<'ctx> {
        pub(crate) fn new(owner: Rc<Owner>) -> Self {
            ExecutionEngine { owner, _m: PhantomData }
        }
        pub fn add_global_mapping(&self, value: &dyn AnyValue<'ctx>, addr: usize) {
            unsafe { LLVMAddGlobalMapping(self.owner.ptr, value.as_value_ref(), addr as *mut _) }
        }
        pub unsafe fn run_function(&self, function: FunctionValue<'ctx>, args: &[&GenericValue<'ctx>]) -> GenericValue<'ctx> {
            unsafe {
                let mut a: Vec<_> = args.iter().map(|v| v.ptr).collect();
                GenericValue { ptr: LLVMRunFunction(self.owner.ptr, function.ptr, a.len() as u32, a.as_mut_ptr()), _m: PhantomData }
            }
        }
        pub fn get_function_address(&self, name: &str) -> Result<usize, FunctionLookupError> {
            let c = CString::new(name).unwrap();
            match unsafe { LLVMGetFunctionAddress(self.owner.ptr, c.as_ptr()) } as usize {
                0 => Err(FunctionLookupError::FunctionNotFound),
                a => Ok(a),
            }
        }
    }
}

pub mod passes {
    use super::*;
    use std::marker::PhantomData;

    #[derive(Debug)]
    pub struct PassManager<T> {
        _m: PhantomData<T>,
    }
    #[derive(Debug)]
    pub struct PassBuilderOptions {
        pub(crate) ptr: LLVMPassBuilderOptionsRef,
    }
    impl PassBuilderOptions {
        pub fn create() -> Self {
            PassBuilderOptions { ptr: unsafe { LLVMCreatePassBuilderOptions() } }
        }
        pub fn set_verify_each(&self, on: bool) {
            unsafe { LLVMPassBuilderOptionsSetVerifyEach(self.ptr, on as i32) }
        }
    }
    impl Drop for PassBuilderOptions {
        fn drop(&mut self) {
            unsafe { LLVMDisposePassBuilderOptions(self.ptr) }
        }
    }
}

pub mod targets {
    use super::*;
    use crate::support::LLVMString;
    use std::ffi::{CStr, CString};
    use std::ptr::null_mut;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CodeModel {
        Default = 0,
        JITDefault = 1,
        Small = 3,
        Kernel = 4,
        Medium = 5,
        Large = 6,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RelocMode {
        Default = 0,
        Static = 1,
        PIC = 2,
        DynamicNoPic = 3,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct InitializationConfig {
        pub asm_parser: bool,
        pub asm_printer: bool,
        pub base: bool,
        pub disassembler: bool,
        pub info: bool,
        pub machine_code: bool,
    }
    impl Default for InitializationConfig {
        fn default() -> Self {
            InitializationConfig { asm_parser: true, asm_printer: true, base: true, disassembler: true, info: true, machine_code: true }
        }
    }
    #[derive(Debug, Eq, PartialEq)]
    pub struct TargetTriple {
        pub(crate) s: LLVMString,
    }
    impl TargetTriple {
        pub fn create(triple: &str) -> Self {
            let c = CString::new(triple).unwrap();
            TargetTriple { s: LLVMString::new(unsafe { LLVMCreateMessage(c.as_ptr()) }) }
        }
        pub fn as_str(&self) -> &CStr {
            &self.s
        }
    }
    impl std::fmt::Display for TargetTriple {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}", self.s)
        }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Target {
        ptr: LLVMTargetRef,
    }
    impl Target {
        pub fn initialize_native(c: &InitializationConfig) -> Result<(), String> {
            static ONCE: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let _g = ONCE.lock();
            unsafe {
                if c.base {
                    LLVMInitializeX86Target();
                }
                if c.info {
                    LLVMInitializeX86TargetInfo();
                }
                if c.machine_code {
                    LLVMInitializeX86TargetMC();
                }
                if c.asm_printer {
                    LLVMInitializeX86AsmPrinter();
                }
                if c.asm_parser {
                    LLVMInitializeX86AsmParser();
                }
            }
            Ok(())
        }
        pub fn from_triple(t: &TargetTriple) -> Result<Self, LLVMString> {
            let (mut p, mut e) = (null_mut(), null_mut());
            if unsafe { LLVMGetTargetFromTriple(t.s.as_ptr(), &mut p, &mut e) } == 1 { Err(LLVMString::new(e)) } else { Ok(Target { ptr: p }) }
        }
        pub fn has_asm_backend(&self) -> bool {
            unsafe { LLVMTargetHasAsmBackend(self.ptr) == 1 }
        }
        pub fn has_target_machine(&self) -> bool {
            unsafe { LLVMTargetHasTargetMachine(self.ptr) == 1 }
        }
        pub fn has_jit(&self) -> bool {
            unsafe { LLVMTargetHasJIT(self.ptr) == 1 }
        }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, features: &str, level: OptimizationLevel, reloc: RelocMode, model: CodeModel) -> Option<TargetMachine> {
            let (cpu, features) = (CString::new(cpu).unwrap(), CString::new(features).unwrap());
            let p = unsafe { LLVMCreateTargetMachine(self.ptr, t.s.as_ptr(), cpu.as_ptr(), features.as_ptr(), level as u32, reloc as u32, model as u32) };
            if p.is_null() { None } else { Some(TargetMachine { ptr: p }) }
        }
    }
    #[derive(Debug)]
    pub struct TargetMachine {
        pub(crate) ptr: LLVMTargetMachineRef,
    }
    impl TargetMachine {
        pub fn get_default_triple() -> TargetTriple {
            TargetTriple { s: LLVMString::new(unsafe { LLVMGetDefaultTargetTriple() }) }
        }
        pub fn get_target_data(&self) -> TargetData {
            TargetData { ptr: unsafe { LLVMCreateTargetDataLayout(self.ptr) } }
        }
        pub fn get_triple(&self) -> TargetTriple {
            TargetTriple { s: LLVMString::new(unsafe { LLVMGetTargetMachineTriple(self.ptr) }) }
        }
    }
    #[derive(Debug)]
    pub struct TargetData {
        ptr: *mut std::ffi::c_void,
    }
    impl TargetData {
        pub fn get_data_layout(&self) -> DataLayout {
            DataLayout { s: LLVMString::new(unsafe { LLVMCopyStringRepOfTargetData(self.ptr) }) }
        }
    }
    impl Drop for TargetData {
        fn drop(&mut self) {
            unsafe { LLVMDisposeTargetData(self.ptr) }
        }
    }
    #[derive(Debug, Eq, PartialEq)]
    pub struct DataLayout {
        s: LLVMString,
    }
    impl DataLayout {
        pub fn as_str(&self) -> &CStr {
            &self.s
        }
    }
    impl Drop for TargetMachine {
        fn drop(&mut self) {
            unsafe { LLVMDisposeTargetMachine(self.ptr) }
        }
    }
}
