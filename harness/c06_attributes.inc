// attribute kinds that LLVM 18 and the compiler share, by name
A(None)
A(AllocAlign)
A(AllocatedPointer)
A(AlwaysInline)
A(Builtin)
A(Cold)
A(Convergent)
A(CoroDestroyOnlyWhenComplete)
A(DeadOnUnwind)
A(DisableSanitizerInstrumentation)
A(FnRetThunkExtern)
A(Hot)
A(ImmArg)
A(InReg)
A(InlineHint)
A(JumpTable)
A(Memory)
A(MinSize)
A(MustProgress)
A(Naked)
A(Nest)
A(NoAlias)
A(NoBuiltin)
A(NoCallback)
A(NoCapture)
A(NoCfCheck)
A(NoDuplicate)
A(NoFree)
A(NoImplicitFloat)
A(NoInline)
A(NoMerge)
A(NoProfile)
A(NoRecurse)
A(NoRedZone)
A(NoReturn)
A(NoSanitizeBounds)
A(NoSanitizeCoverage)
A(NoSync)
A(NoUndef)
A(NoUnwind)
A(NonLazyBind)
A(NonNull)
A(NullPointerIsValid)
A(OptForFuzzing)
A(OptimizeForDebugging)
A(OptimizeForSize)
A(OptimizeNone)
A(PresplitCoroutine)
A(ReadNone)
A(ReadOnly)
A(Returned)
A(ReturnsTwice)
A(SExt)
A(SafeStack)
A(SanitizeAddress)
A(SanitizeHWAddress)
A(SanitizeMemTag)
A(SanitizeMemory)
A(SanitizeThread)
A(ShadowCallStack)
A(SkipProfile)
A(Speculatable)
A(SpeculativeLoadHardening)
A(StackProtect)
A(StackProtectReq)
A(StackProtectStrong)
A(StrictFP)
A(SwiftAsync)
A(SwiftError)
A(SwiftSelf)
A(WillReturn)
A(Writable)
A(WriteOnly)
A(ZExt)
A(ByRef)
A(ByVal)
A(ElementType)
A(InAlloca)
A(Preallocated)
A(StructRet)
A(Alignment)
A(AllocKind)
A(AllocSize)
A(Dereferenceable)
A(DereferenceableOrNull)
A(NoFPClass)
A(StackAlignment)
A(UWTable)
A(VScaleRange)
A(EndAttrKinds)
