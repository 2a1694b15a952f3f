// linkages: LLVM, compiler, name
L(ExternalLinkage, externalLinkage, "external_linkage")
L(AvailableExternallyLinkage, availableExternallyLinkage, "available_externally_linkage")
L(LinkOnceAnyLinkage, linkOnceAnyLinkage, "link_once_any_linkage")
L(LinkOnceODRLinkage, linkOnceOdrLinkage, "link_once_odr_linkage")
L(WeakAnyLinkage, weakAnyLinkage, "weak_any_linkage")
L(WeakODRLinkage, weakOdrLinkage, "weak_odr_linkage")
L(AppendingLinkage, appendingLinkage, "appending_linkage")
L(InternalLinkage, internalLinkage, "internal_linkage")
L(PrivateLinkage, privateLinkage, "private_linkage")
L(ExternalWeakLinkage, externalWeakLinkage, "external_weak_linkage")
L(CommonLinkage, commonLinkage, "common_linkage")
