//! Minimal bindings to the LLVM C API (read-only use).
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, CStr, CString};

pub type Ref = *mut u8;

extern "C" {
    pub fn LLVMContextCreate() -> Ref;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Ref, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(ctx: Ref, buf: Ref, out: *mut Ref) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Ref) -> Ref;
    pub fn LLVMABISizeOfType(td: Ref, ty: Ref) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: Ref, ty: Ref) -> c_ulonglong;
    pub fn LLVMOffsetOfElement(td: Ref, ty: Ref, e: c_uint) -> c_ulonglong;
    pub fn LLVMGetFirstFunction(m: Ref) -> Ref;
    pub fn LLVMGetNextFunction(f: Ref) -> Ref;
    pub fn LLVMGetFirstGlobal(m: Ref) -> Ref;
    pub fn LLVMGetNextGlobal(f: Ref) -> Ref;
    pub fn LLVMGetValueName2(v: Ref, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Ref) -> c_int;
    pub fn LLVMGetInitializer(v: Ref) -> Ref;
    pub fn LLVMIsGlobalConstant(v: Ref) -> c_int;
    pub fn LLVMIsThreadLocal(v: Ref) -> c_int;
    pub fn LLVMGlobalGetValueType(v: Ref) -> Ref;
    pub fn LLVMCountParams(f: Ref) -> c_uint;
    pub fn LLVMGetParam(f: Ref, i: c_uint) -> Ref;
    pub fn LLVMCountBasicBlocks(f: Ref) -> c_uint;
    pub fn LLVMGetFirstBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetNextBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetFirstInstruction(b: Ref) -> Ref;
    pub fn LLVMGetNextInstruction(i: Ref) -> Ref;
    pub fn LLVMGetInstructionOpcode(i: Ref) -> c_int;
    pub fn LLVMTypeOf(v: Ref) -> Ref;
    pub fn LLVMGetTypeKind(t: Ref) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Ref) -> c_uint;
    pub fn LLVMGetElementType(t: Ref) -> Ref;
    pub fn LLVMGetArrayLength2(t: Ref) -> u64;
    pub fn LLVMGetVectorSize(t: Ref) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: Ref) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetNumOperands(v: Ref) -> c_int;
    pub fn LLVMGetOperand(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetValueKind(v: Ref) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Ref) -> c_ulonglong;
    pub fn LLVMGetAggregateElement(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetAsString(v: Ref, len: *mut usize) -> *const c_char;
    pub fn LLVMIsConstantString(v: Ref) -> c_int;
    pub fn LLVMGetConstOpcode(v: Ref) -> c_int;
    pub fn LLVMGetGEPSourceElementType(v: Ref) -> Ref;
    pub fn LLVMGetAllocatedType(v: Ref) -> Ref;
    pub fn LLVMGetICmpPredicate(v: Ref) -> c_int;
    pub fn LLVMCountIncoming(v: Ref) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetIncomingBlock(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetNumSuccessors(v: Ref) -> c_uint;
    pub fn LLVMGetSuccessor(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetCondition(v: Ref) -> Ref;
    pub fn LLVMGetSwitchCaseValue(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetNumArgOperands(v: Ref) -> c_uint;
    pub fn LLVMGetArgOperand(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetCalledValue(v: Ref) -> Ref;
    pub fn LLVMGetNormalDest(v: Ref) -> Ref;
    pub fn LLVMGetUnwindDest(v: Ref) -> Ref;
    pub fn LLVMGetNumIndices(v: Ref) -> c_uint;
    pub fn LLVMGetIndices(v: Ref) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(v: Ref) -> c_uint;
    pub fn LLVMGetMaskValue(v: Ref, i: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(v: Ref) -> c_int;
    pub fn LLVMPrintValueToString(v: Ref) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Ref) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMAliasGetAliasee(v: Ref) -> Ref;
    pub fn LLVMIsNull(v: Ref) -> c_int;
    fn LLVMIsAConstantPointerNull(v: Ref) -> Ref;
    fn LLVMIsAPoisonValue(v: Ref) -> Ref;
    fn LLVMIsAConstantFP(v: Ref) -> Ref;
    fn LLVMIsAInlineAsm(v: Ref) -> Ref;
}

/// Value kind with the numbering of older releases (newer ones insert kinds after 18).
pub fn kind_of(v: Ref) -> i32 {
    unsafe {
        let k = LLVMGetValueKind(v);
        if k <= 18 {
            k
        } else if !LLVMIsAConstantPointerNull(v).is_null() {
            20
        } else if !LLVMIsAPoisonValue(v).is_null() {
            25
        } else if !LLVMIsAConstantFP(v).is_null() {
            19
        } else if !LLVMIsAInlineAsm(v).is_null() {
            23
        } else {
            100 + k
        }
    }
}

pub fn load_bitcode(path: &str) -> Result<Ref, String> {
    unsafe {
        let ctx = LLVMContextCreate();
        let mut buf: Ref = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        let p = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {path}"));
        }
        let mut m: Ref = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
            return Err(format!("cannot parse {path}"));
        }
        Ok(m)
    }
}

pub fn name_of(v: Ref) -> String {
    unsafe {
        let mut len = 0usize;
        let p = LLVMGetValueName2(v, &mut len);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, len)).into_owned()
    }
}

pub fn print_value(v: Ref) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}

pub fn print_type(v: Ref) -> String {
    unsafe {
        let p = LLVMPrintTypeToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
