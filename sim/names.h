// Names from libraries of the system, with what both GNU c++filt and libcwd make of them.
  {"_ZN5boost6locale8impl_icu15uconv_converterD2Ev", "boost::locale::impl_icu::uconv_converter::~uconv_converter()", false},
  {"_ZSt9use_facetISt8messagesIwEERKT_RKSt6locale", "std::messages<wchar_t> const& std::use_facet<std::messages<wchar_t> >(std::locale const&)", false},
  {"_ZN5clang21NoRandomizeLayoutAttrC2ERNS_10ASTContextERKNS_19AttributeCommonInfoE", "clang::NoRandomizeLayoutAttr::NoRandomizeLayoutAttr(clang::ASTContext&, clang::AttributeCommonInfo const&)", false},
  {"_ZN5clang9ASTReader26setDeserializationListenerEPNS_26ASTDeserializationListenerEb", "clang::ASTReader::setDeserializationListener(clang::ASTDeserializationListener*, bool)", false},
  {"_ZN5clang9ASTWriter23AddedStaticLocalNumbersEPKNS_4DeclEj", "clang::ASTWriter::AddedStaticLocalNumbers(clang::Decl const*, unsigned int)", false},
  {"_ZNSt14numeric_limitsIwE12has_infinityE", "std::numeric_limits<wchar_t>::has_infinity", false},
  {"_ZThn16_N5boost10wrapexceptINS_12bad_weak_ptrEED1Ev", "non-virtual thunk to boost::wrapexcept<boost::bad_weak_ptr>::~wrapexcept()", false},
  {"_ZN5boost7archive6detail22archive_serializer_mapINS_3mpi15packed_iarchiveEE6insertEPKNS1_16basic_serializerE", "boost::archive::detail::archive_serializer_map<boost::mpi::packed_iarchive>::insert(boost::archive::detail::basic_serializer const*)", false},
  {"_ZN5clang10SemaOpenMP34ActOnOpenMPTargetExitDataDirectiveEN4llvm8ArrayRefIPNS_9OMPClauseEEENS_14SourceLocationES6_PNS_4StmtE", "clang::SemaOpenMP::ActOnOpenMPTargetExitDataDirective(llvm::ArrayRef<clang::OMPClause*>, clang::SourceLocation, clang::SourceLocation, clang::Stmt*)", false},
  {"_ZN5clang6interp11EvalEmitter22emitGetThisFieldUint16EjNS0_10SourceInfoE", "clang::interp::EvalEmitter::emitGetThisFieldUint16(unsigned int, clang::interp::SourceInfo)", false},
  {"_ZTVSt16__numpunct_cacheIwE", "vtable for std::__numpunct_cache<wchar_t>", false},
  {"_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6insertEmPKcm", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::insert(unsigned long, char const*, unsigned long)", false},
  {"_ZNSt15_Sp_counted_ptrIPN7testing11ExpectationELN9__gnu_cxx12_Lock_policyE2EED2Ev", "std::_Sp_counted_ptr<testing::Expectation*, (__gnu_cxx::_Lock_policy)2>::~_Sp_counted_ptr()", false},
  {"_ZN5boost3log12v2s_mt_posix5sinks12_GLOBAL__N_114file_collector10store_fileERKNS_10filesystem4pathE", "boost::log::v2s_mt_posix::sinks::(anonymous namespace)::file_collector::store_file(boost::filesystem::path const&)", false},
  {"_ZN5boost10filesystem16filesystem_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS0_4pathENS_6system10error_codeE", "boost::filesystem::filesystem_error::filesystem_error(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, boost::filesystem::path const&, boost::system::error_code)", false},
  {"_ZN5boost6detail18sp_counted_impl_pdIPP12ompi_group_tNS_3mpi5group10group_freeEE19get_untyped_deleterEv", "boost::detail::sp_counted_impl_pd<ompi_group_t**, boost::mpi::group::group_free>::get_untyped_deleter()", false},
  {"_ZN5boost7archive18basic_xml_oarchiveINS0_13xml_woarchiveEE13save_overrideERKNS0_21object_reference_typeE", "boost::archive::basic_xml_oarchive<boost::archive::xml_woarchive>::save_override(boost::archive::object_reference_type const&)", false},
  {"_ZTIN5boost9gregorian16bad_day_of_monthE", "typeinfo for boost::gregorian::bad_day_of_month", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE8emitBoolEbPKNS_4ExprE", "clang::interp::Compiler<clang::interp::EvalEmitter>::emitBool(bool, clang::Expr const*)", false},
  {"_ZNK5clang13OwnershipAttr5cloneERNS_10ASTContextE", "clang::OwnershipAttr::clone(clang::ASTContext&) const", false},
  {"_ZN5clang4Expr28hasAnyTypeDependentArgumentsEN4llvm8ArrayRefIPS0_EE", "clang::Expr::hasAnyTypeDependentArguments(llvm::ArrayRef<clang::Expr*>)", false},
  {"_ZNKSt10filesystem4path11parent_pathEv", "std::filesystem::path::parent_path() const", false},
  {"_ZNSt13basic_ostreamIwSt11char_traitsIwEElsEd", "std::basic_ostream<wchar_t, std::char_traits<wchar_t> >::operator<<(double)", false},
  {"_ZN5clang19RecursiveASTVisitorINS_10extractapi17ExtractAPIVisitorIvEEE23VisitOMPGrainsizeClauseEPNS_18OMPGrainsizeClauseE", "clang::RecursiveASTVisitor<clang::extractapi::ExtractAPIVisitor<void> >::VisitOMPGrainsizeClause(clang::OMPGrainsizeClause*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE25TraverseObjCInterfaceDeclEPNS_17ObjCInterfaceDeclE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseObjCInterfaceDecl(clang::ObjCInterfaceDecl*)", false},
  {"_ZNSt18__moneypunct_cacheIcLb0EEC1Em", "std::__moneypunct_cache<char, false>::__moneypunct_cache(unsigned long)", false},
  {"_ZNSt14numeric_limitsIdE5trapsE", "std::numeric_limits<double>::traps", false},
  {"_ZGVZN5boost6locale12_GLOBAL__N_134localization_backend_manager_mutexEvE9the_mutex", "guard variable for boost::locale::(anonymous namespace)::localization_backend_manager_mutex()::the_mutex", false},
  {"_ZN5boost13re_detail_50012perl_matcherIPKwSaINS_9sub_matchIS3_EEENS_12regex_traitsIwNS_16cpp_regex_traitsIwEEEEE10match_wildEv", "boost::re_detail_500::perl_matcher<wchar_t const*, std::allocator<boost::sub_match<wchar_t const*> >, boost::regex_traits<wchar_t, boost::cpp_regex_traits<wchar_t> > >::match_wild()", false},
  {"_ZTSN5boost4asio5error6detail17addrinfo_categoryE", "typeinfo name for boost::asio::error::detail::addrinfo_category", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE43WalkUpFromOMPTargetParallelForSimdDirectiveEPNS_33OMPTargetParallelForSimdDirectiveE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromOMPTargetParallelForSimdDirective(clang::OMPTargetParallelForSimdDirective*)", false},
  {"_ZTVN5boost6locale11gnu_gettext6lambda12_GLOBAL__N_15unaryISt11logical_notIxEEE", "vtable for boost::locale::gnu_gettext::lambda::(anonymous namespace)::unary<std::logical_not<long long> >", false},
  {"_ZNSt14numeric_limitsIcE9is_moduloE", "std::numeric_limits<char>::is_modulo", false},
  {"_ZNK5boost6locale9date_timeneERKS1_", "boost::locale::date_time::operator!=(boost::locale::date_time const&) const", false},
  {"_ZNKSt10moneypunctIwLb1EE11do_groupingEv", "std::moneypunct<wchar_t, true>::do_grouping() const", false},
  {"_ZNSt13basic_ostreamIwSt11char_traitsIwEE6sentryD1Ev", "std::basic_ostream<wchar_t, std::char_traits<wchar_t> >::sentry::~sentry()", false},
  {"_ZN5boost4json6stringaSEPKc", "boost::json::string::operator=(char const*)", false},
  {"_ZNSt14numeric_limitsIsE10has_denormE", "std::numeric_limits<short>::has_denorm", false},
  {"_ZGVZNK5clang23NonTypeTemplateParmDecl18getDefaultArgumentEvE7NoneLoc", "guard variable for clang::NonTypeTemplateParmDecl::getDefaultArgument() const::NoneLoc", false},
  {"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h", "std::basic_ostream<char, std::char_traits<char> >& std::operator<< <std::char_traits<char> >(std::basic_ostream<char, std::char_traits<char> >&, unsigned char)", false},
  {"_ZN5clangeqERKNS_7APValue10LValueBaseES3_", "clang::operator==(clang::APValue::LValueBase const&, clang::APValue::LValueBase const&)", false},
  {"_ZN5clang6interp15ByteCodeEmitter20emitBitCastPrimUint8EbjPKN4llvm12fltSemanticsEPKNS_4TypeENS0_10SourceInfoE", "clang::interp::ByteCodeEmitter::emitBitCastPrimUint8(bool, unsigned int, llvm::fltSemantics const*, clang::Type const*, clang::interp::SourceInfo)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE41WalkUpFromOMPParallelGenericLoopDirectiveEPNS_31OMPParallelGenericLoopDirectiveE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromOMPParallelGenericLoopDirective(clang::OMPParallelGenericLoopDirective*)", false},
  {"_ZZN5boost10filesystem22codecvt_error_categoryEvE23codecvt_error_cat_const", "boost::filesystem::codecvt_error_category()::codecvt_error_cat_const", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE32WalkUpFromObjCImplementationDeclEPNS_22ObjCImplementationDeclE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromObjCImplementationDecl(clang::ObjCImplementationDecl*)", false},
  {"_ZNSt7__cxx1119basic_istringstreamIwSt11char_traitsIwESaIwEE4swapERS4_", "std::__cxx11::basic_istringstream<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::swap(std::__cxx11::basic_istringstream<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >&)", false},
  {"_ZNSt10unique_ptrIN2rc3SeqIcE8ISeqImplESt14default_deleteIS3_EED1Ev", "std::unique_ptr<rc::Seq<char>::ISeqImpl, std::default_delete<rc::Seq<char>::ISeqImpl> >::~unique_ptr()", false},
  {"_ZN5clang7CodeGen15CodeGenFunction28registerGlobalDtorWithAtExitERKNS_7VarDeclEN4llvm14FunctionCalleeEPNS5_8ConstantE", "clang::CodeGen::CodeGenFunction::registerGlobalDtorWithAtExit(clang::VarDecl const&, llvm::FunctionCallee, llvm::Constant*)", false},
  {"_ZNK4llvm6Triple16isCompatibleWithERKS0_", "llvm::Triple::isCompatibleWith(llvm::Triple const&) const", false},
  {"_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4findERKS4_m", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::find(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, unsigned long) const", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE13VisitTypeDeclEPKNS_8TypeDeclE", "clang::DynamicRecursiveASTVisitorBase<true>::VisitTypeDecl(clang::TypeDecl const*)", false},
  {"_ZN5clang26PatchableFunctionEntryAttr6CreateERNS_10ASTContextEjiN4llvm9StringRefENS_11SourceRangeENS0_8SpellingE", "clang::PatchableFunctionEntryAttr::Create(clang::ASTContext&, unsigned int, int, llvm::StringRef, clang::SourceRange, clang::PatchableFunctionEntryAttr::Spelling)", false},
  {"_ZNSt13basic_istreamIwSt11char_traitsIwEE10_M_extractIjEERS2_RT_", "std::basic_istream<wchar_t, std::char_traits<wchar_t> >& std::basic_istream<wchar_t, std::char_traits<wchar_t> >::_M_extract<unsigned int>(unsigned int&)", false},
  {"_ZNSt14numeric_limitsIsE11round_styleE", "std::numeric_limits<short>::round_style", false},
  {"_ZN5boost6python3apipLERNS1_6objectERKS2_", "boost::python::api::operator+=(boost::python::api::object&, boost::python::api::object const&)", false},
  {"_ZGVN5boost13serialization9singletonINS_7archive6detail12extra_detail3mapINS2_27polymorphic_binary_oarchiveEEEE10m_instanceE", "guard variable for boost::serialization::singleton<boost::archive::detail::extra_detail::map<boost::archive::polymorphic_binary_oarchive> >::m_instance", false},
  {"_ZNK5clang6driver9ToolChain27ComputeEffectiveClangTripleERKN4llvm3opt7ArgListENS0_5types2IDE", "clang::driver::ToolChain::ComputeEffectiveClangTriple(llvm::opt::ArgList const&, clang::driver::types::ID) const", false},
  {"_ZNSt15basic_streambufIcSt11char_traitsIcEE7seekoffElSt12_Ios_SeekdirSt13_Ios_Openmode", "std::basic_streambuf<char, std::char_traits<char> >::seekoff(long, std::_Ios_Seekdir, std::_Ios_Openmode)", false},
  {"_ZNKSt7__cxx118numpunctIcE13thousands_sepEv", "std::__cxx11::numpunct<char>::thousands_sep() const", false},
  {"_ZNK7testing8internal11ThreadLocalIPNS_8SequenceEE25DefaultValueHolderFactory13MakeNewHolderEv", "testing::internal::ThreadLocal<testing::Sequence*>::DefaultValueHolderFactory::MakeNewHolder() const", false},
  {"_ZN5clang4ento31CXXLifetimeExtendedObjectRegion13ProfileRegionERN4llvm16FoldingSetNodeIDEPKNS_4ExprEPKNS_9ValueDeclEPKNS0_9MemRegionE", "clang::ento::CXXLifetimeExtendedObjectRegion::ProfileRegion(llvm::FoldingSetNodeID&, clang::Expr const*, clang::ValueDecl const*, clang::ento::MemRegion const*)", false},
  {"_ZN4llvm10AllocaInstC1EPNS_4TypeEjPNS_5ValueENS_5AlignERKNS_5TwineENS_14InsertPositionE", "llvm::AllocaInst::AllocaInst(llvm::Type*, unsigned int, llvm::Value*, llvm::Align, llvm::Twine const&, llvm::InsertPosition)", false},
  {"_ZNK2rc3SeqIlE7SeqImplINS_6shrink6detail10TowardsSeqIlEEE4copyEv", "rc::Seq<long>::SeqImpl<rc::shrink::detail::TowardsSeq<long> >::copy() const", false},
  {"_ZTIN2rc3SeqINS_10ShrinkableItEEE8ISeqImplE", "typeinfo for rc::Seq<rc::Shrinkable<unsigned short> >::ISeqImpl", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE38WalkUpFromDependentAddressSpaceTypeLocENS_28DependentAddressSpaceTypeLocE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromDependentAddressSpaceTypeLoc(clang::DependentAddressSpaceTypeLoc)", false},
  {"_ZNSt14numeric_limitsInE10is_boundedE", "std::numeric_limits<__int128>::is_bounded", false},
  {"_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE14__xfer_bufptrsD2Ev", "std::__cxx11::basic_stringbuf<char, std::char_traits<char>, std::allocator<char> >::__xfer_bufptrs::~__xfer_bufptrs()", false},
  {"_ZNK4llvm13AttributeList10getFnAttrsEv", "llvm::AttributeList::getFnAttrs() const", false},
  {"_ZN5clang19RecursiveASTVisitorINS_10installapi17InstallAPIVisitorEE28VisitOMPUsesAllocatorsClauseEPNS_23OMPUsesAllocatorsClauseE", "clang::RecursiveASTVisitor<clang::installapi::InstallAPIVisitor>::VisitOMPUsesAllocatorsClause(clang::OMPUsesAllocatorsClause*)", false},
  {"_ZN5clang7CodeGen15CodeGenFunction13EmitNeonSplatEPN4llvm5ValueEPNS2_8ConstantE", "clang::CodeGen::CodeGenFunction::EmitNeonSplat(llvm::Value*, llvm::Constant*)", false},
  {"_ZN4llvm9DIBuilder17createForwardDeclEjNS_9StringRefEPNS_7DIScopeEPNS_6DIFileEjjmjS1_NSt3__18optionalIjEE", "llvm::DIBuilder::createForwardDecl(unsigned int, llvm::StringRef, llvm::DIScope*, llvm::DIFile*, unsigned int, unsigned int, unsigned long, unsigned int, llvm::StringRef, std::__1::optional<unsigned int>)", false},
  {"_ZTSN5boost7runtime9parameterIjLNS0_11args_amountE0ELb0EEE", "typeinfo name for boost::runtime::parameter<unsigned int, (boost::runtime::args_amount)0, false>", false},
  {"_ZN4llvm3ARM16getARMCPUForArchERKNS_6TripleENS_9StringRefE", "llvm::ARM::getARMCPUForArch(llvm::Triple const&, llvm::StringRef)", false},
  {"_ZNKSt7__cxx1119basic_istringstreamIwSt11char_traitsIwESaIwEE5rdbufEv", "std::__cxx11::basic_istringstream<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::rdbuf() const", false},
  {"_ZN4llvm9Intrinsic24getIntrinsicForMSBuiltinENS_9StringRefES1_", "llvm::Intrinsic::getIntrinsicForMSBuiltin(llvm::StringRef, llvm::StringRef)", false},
  {"_ZNSt7__cxx118numpunctIwE2idE", "std::__cxx11::numpunct<wchar_t>::id", false},
  {"_ZNK4llvm12RISCVISAInfo10toFeaturesEbb", "llvm::RISCVISAInfo::toFeatures(bool, bool) const", false},
  {"_ZN4llvm3vfs10FileSystem2IDE", "llvm::vfs::FileSystem::ID", false},
  {"_ZN5boost13re_detail_50019basic_regex_creatorIcNS_14c_regex_traitsIcEEE16fixup_recursionsEPNS0_14re_syntax_baseE", "boost::re_detail_500::basic_regex_creator<char, boost::c_regex_traits<char> >::fixup_recursions(boost::re_detail_500::re_syntax_base*)", false},
  {"_ZTISt7codecvtIwc11__mbstate_tE", "typeinfo for std::codecvt<wchar_t, char, __mbstate_t>", false},
  {"_ZNSt13basic_filebufIcSt11char_traitsIcEE19_M_terminate_outputEv", "std::basic_filebuf<char, std::char_traits<char> >::_M_terminate_output()", false},
  {"_ZN5clang12Preprocessor21CollectPpImportSuffixERN4llvm15SmallVectorImplINS_5TokenEEE", "clang::Preprocessor::CollectPpImportSuffix(llvm::SmallVectorImpl<clang::Token>&)", false},
  {"_ZNK5clang17HLSLVkBindingAttr11printPrettyERN4llvm11raw_ostreamERKNS_14PrintingPolicyE", "clang::HLSLVkBindingAttr::printPretty(llvm::raw_ostream&, clang::PrintingPolicy const&) const", false},
  {"_ZNK5boost4json6detail21error_code_category_t7messageEiPcm", "boost::json::detail::error_code_category_t::message(int, char*, unsigned long) const", false},
  {"_ZN4llvmlsIN5clang8CFGBlockEEERNS_11raw_ostreamES4_PKNS_15DomTreeNodeBaseIT_EE", "llvm::raw_ostream& llvm::operator<< <clang::CFGBlock>(llvm::raw_ostream&, llvm::DomTreeNodeBase<clang::CFGBlock> const*)", false},
  {"_ZTSSt7complexIfE", "typeinfo name for std::complex<float>", false},
  {"_ZN5boost9unit_test17lazy_ostream_implINS1_INS0_12lazy_ostreamEA42_cRA42_KcEEjRKjED0Ev", "boost::unit_test::lazy_ostream_impl<boost::unit_test::lazy_ostream_impl<boost::unit_test::lazy_ostream, char [42], char const (&) [42]>, unsigned int, unsigned int const&>::~lazy_ostream_impl()", false},
  {"_ZTISt14unary_functionIxbE", "typeinfo for std::unary_function<long long, bool>", false},
  {"_ZN5clang19RecursiveASTVisitorI18OpaqueValueVisitorE25TraverseImplicitParamDeclEPNS_17ImplicitParamDeclE", "clang::RecursiveASTVisitor<OpaqueValueVisitor>::TraverseImplicitParamDecl(clang::ImplicitParamDecl*)", false},
  {"_ZNSt14numeric_limitsIdE15has_denorm_lossE", "std::numeric_limits<double>::has_denorm_loss", false},
  {"_ZNK5boost10wrapexceptINS_10lock_errorEE5cloneEv", "boost::wrapexcept<boost::lock_error>::clone() const", false},
  {"_ZNSt14numeric_limitsImE12min_exponentE", "std::numeric_limits<unsigned long>::min_exponent", false},
  {"_ZN4llvm27LLVMRemarkSetupPatternError2IDE", "llvm::LLVMRemarkSetupPatternError::ID", false},
  {"_ZN5boost3log12v2s_mt_posix3aux27date_format_parser_callbackIcE16on_full_week_dayEv", "boost::log::v2s_mt_posix::aux::date_format_parser_callback<char>::on_full_week_day()", false},
  {"_ZN5boost10filesystem6detail14symlink_statusERKNS0_4pathEPNS_6system10error_codeE", "boost::filesystem::detail::symlink_status(boost::filesystem::path const&, boost::system::error_code*)", false},
  {"_ZNSt10filesystem16create_hard_linkERKNS_4pathES2_RSt10error_code", "std::filesystem::create_hard_link(std::filesystem::path const&, std::filesystem::path const&, std::error_code&)", false},
  {"_ZN4llvm14identify_magicENS_9StringRefE", "llvm::identify_magic(llvm::StringRef)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE31WalkUpFromOMPTaskyieldDirectiveEPKNS_21OMPTaskyieldDirectiveE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromOMPTaskyieldDirective(clang::OMPTaskyieldDirective const*)", false},
  {"_ZN5boost6detail18sp_counted_impl_pdIPhNS_21checked_array_deleterIhEEED1Ev", "boost::detail::sp_counted_impl_pd<unsigned char*, boost::checked_array_deleter<unsigned char> >::~sp_counted_impl_pd()", false},
  {"_ZN5boost9date_time10time_facetINS_10posix_time5ptimeEcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE19default_time_formatE", "boost::date_time::time_facet<boost::posix_time::ptime, char, std::ostreambuf_iterator<char, std::char_traits<char> > >::default_time_format", false},
  {"_ZNKSt11__timepunctIwE19_M_days_abbreviatedEPPKw", "std::__timepunct<wchar_t>::_M_days_abbreviated(wchar_t const**) const", false},
  {"_ZNSt10filesystem8is_emptyERKNS_4pathE", "std::filesystem::is_empty(std::filesystem::path const&)", false},
  {"_ZNKSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE17find_first_not_ofERKS4_m", "std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::find_first_not_of(std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> > const&, unsigned long) const", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE26TraverseOpenACCDeclareDeclEPKNS_18OpenACCDeclareDeclE", "clang::DynamicRecursiveASTVisitorBase<true>::TraverseOpenACCDeclareDecl(clang::OpenACCDeclareDecl const*)", false},
  {"_ZNSt18__moneypunct_cacheIcLb0EE8_M_cacheERKSt6locale", "std::__moneypunct_cache<char, false>::_M_cache(std::locale const&)", false},
  {"_ZZN5boost4json6detail11string_impl6appendEmRKNS0_11storage_ptrEE3loc", "boost::json::detail::string_impl::append(unsigned long, boost::json::storage_ptr const&)::loc", false},
  {"_ZN4llvm14GlobalVariable16removeFromParentEv", "llvm::GlobalVariable::removeFromParent()", false},
  {"_Z23HandleComplexComplexDivN4llvm7APFloatES0_S0_S0_RS0_S1_", "HandleComplexComplexDiv(llvm::APFloat, llvm::APFloat, llvm::APFloat, llvm::APFloat, llvm::APFloat&, llvm::APFloat&)", false},
  {"_ZN5boost3log12v2s_mt_posix3aux27time_format_parser_callbackIwE10on_minutesEv", "boost::log::v2s_mt_posix::aux::time_format_parser_callback<wchar_t>::on_minutes()", false},
  {"_ZN4llvm9WithColor7warningERNS_11raw_ostreamENS_9StringRefEb", "llvm::WithColor::warning(llvm::raw_ostream&, llvm::StringRef, bool)", false},
  {"_ZN4llvm23SmallVectorTemplateBaseIN5clang6driver11custom_flag11ValueDetailELb0EE19moveElementsForGrowEPS4_", "llvm::SmallVectorTemplateBase<clang::driver::custom_flag::ValueDetail, false>::moveElementsForGrow(clang::driver::custom_flag::ValueDetail*)", false},
  {"_ZNSt15basic_streambufIcSt11char_traitsIcEE9pbackfailEi", "std::basic_streambuf<char, std::char_traits<char> >::pbackfail(int)", false},
  {"_ZZNK5boost4urls6detail17identifier_rule_t5parseERPKcS4_E11loc__LINE__", "boost::urls::detail::identifier_rule_t::parse(char const*&, char const*) const::loc__LINE__", false},
  {"_ZN2rc3SeqIxE7SeqImplINS_6shrink6detail10TowardsSeqIxEEE4nextEv", "rc::Seq<long long>::SeqImpl<rc::shrink::detail::TowardsSeq<long long> >::next()", false},
  {"_ZNKSt7num_putIwSt19ostreambuf_iteratorIwSt11char_traitsIwEEE6_M_padEwlRSt8ios_basePwPKwRi", "std::num_put<wchar_t, std::ostreambuf_iterator<wchar_t, std::char_traits<wchar_t> > >::_M_pad(wchar_t, long, std::ios_base&, wchar_t*, wchar_t const*, int&) const", false},
  {"_ZN5clang19RecursiveASTVisitorINS_16ParentMapContext9ParentMap10ASTVisitorEE26TraverseAcquiredBeforeAttrEPNS_18AcquiredBeforeAttrE", "clang::RecursiveASTVisitor<clang::ParentMapContext::ParentMap::ASTVisitor>::TraverseAcquiredBeforeAttr(clang::AcquiredBeforeAttr*)", false},
  {"_ZNSt10istrstream3strEv", "std::istrstream::str()", false},
  {"_ZNKSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE7compareEmmPKw", "std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::compare(unsigned long, unsigned long, wchar_t const*) const", false},
  {"_ZN4llvm5APInt16orAssignSlowCaseERKS0_", "llvm::APInt::orAssignSlowCase(llvm::APInt const&)", false},
  {"_ZN5boost13re_detail_50018basic_regex_parserIwNS_12regex_traitsIwNS_16cpp_regex_traitsIwEEEEE8parse_QEEv", "boost::re_detail_500::basic_regex_parser<wchar_t, boost::regex_traits<wchar_t, boost::cpp_regex_traits<wchar_t> > >::parse_QE()", false},
  {"_ZN5clang4ento14processLoopEndEPKNS_4StmtEN4llvm18IntrusiveRefCntPtrIKNS0_12ProgramStateEEE", "clang::ento::processLoopEnd(clang::Stmt const*, llvm::IntrusiveRefCntPtr<clang::ento::ProgramState const>)", false},
  {"_ZN5boost6python7objects21full_py_function_implIPFP7_objectS4_S4_ENS_3mpl7vector1IvEEED1Ev", "boost::python::objects::full_py_function_impl<_object* (*)(_object*, _object*), boost::mpl::vector1<void> >::~full_py_function_impl()", false},
  {"_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RSbIS4_S5_T1_E", "std::basic_istream<char, std::char_traits<char> >& std::getline<char, std::char_traits<char>, std::allocator<char> >(std::basic_istream<char, std::char_traits<char> >&, std::basic_string<char, std::char_traits<char>, std::allocator<char> >&)", false},
  {"_ZNSbIwSt11char_traitsIwESaIwEE6appendEPKw", "std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::append(wchar_t const*)", false},
  {"_ZN5boost3log12v2s_mt_posix3aux27time_format_parser_callbackIwE8on_hoursEb", "boost::log::v2s_mt_posix::aux::time_format_parser_callback<wchar_t>::on_hours(bool)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE28VisitTemplateParamObjectDeclEPNS_23TemplateParamObjectDeclE", "clang::DynamicRecursiveASTVisitorBase<false>::VisitTemplateParamObjectDecl(clang::TemplateParamObjectDecl*)", false},
  {"_ZNKSt8numpunctIwE8truenameEv", "std::numpunct<wchar_t>::truename() const", false},
  {"_ZN5boost3log12v2s_mt_posix15type_dispatcher13callback_base10trampolineINS1_3aux12_GLOBAL__N_117default_formatterIcE7visitorEbEEvPvRKT0_", "void boost::log::v2s_mt_posix::type_dispatcher::callback_base::trampoline<boost::log::v2s_mt_posix::aux::(anonymous namespace)::default_formatter<char>::visitor, bool>(void*, bool const&)", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE18VisitTypeTraitExprEPKNS_13TypeTraitExprE", "clang::interp::Compiler<clang::interp::EvalEmitter>::VisitTypeTraitExpr(clang::TypeTraitExpr const*)", false},
  {"_ZN5clang8SemaCUDA21CUDATargetContextRAIIC2ERS0_NS0_21CUDATargetContextKindEPNS_4DeclE", "clang::SemaCUDA::CUDATargetContextRAII::CUDATargetContextRAII(clang::SemaCUDA&, clang::SemaCUDA::CUDATargetContextKind, clang::Decl*)", false},
  {"_ZN4llvm2cl10SubCommand11getTopLevelEv", "llvm::cl::SubCommand::getTopLevel()", false},
  {"_ZNK5boost13serialization13typeid_system27extended_type_info_typeid_014get_debug_infoEv", "boost::serialization::typeid_system::extended_type_info_typeid_0::get_debug_info() const", false},
  {"_ZZN4llvm10FoldingSetIN5clang34FunctionTemplateSpecializationInfoEE17getFoldingSetInfoEvE4Info", "llvm::FoldingSet<clang::FunctionTemplateSpecializationInfo>::getFoldingSetInfo()::Info", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE20VisitOpaqueValueExprEPKNS_15OpaqueValueExprE", "clang::DynamicRecursiveASTVisitorBase<true>::VisitOpaqueValueExpr(clang::OpaqueValueExpr const*)", false},
  {"_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate", "std::basic_ios<char, std::char_traits<char> >::clear(std::_Ios_Iostate)", false},
  {"_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE12_M_constructEmw", "std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::_M_construct(unsigned long, wchar_t)", false},
  {"_ZN5clang6interp8GetFieldILNS0_8PrimTypeE9ENS0_10IntegralAPILb1EEEEEbRNS0_11InterpStateENS0_7CodePtrEj", "bool clang::interp::GetField<(clang::interp::PrimType)9, clang::interp::IntegralAP<true> >(clang::interp::InterpState&, clang::interp::CodePtr, unsigned int)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE21VisitExprWithCleanupsEPNS_16ExprWithCleanupsE", "clang::DynamicRecursiveASTVisitorBase<false>::VisitExprWithCleanups(clang::ExprWithCleanups*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE27TraverseOMPGroupPrivateDeclEPNS_19OMPGroupPrivateDeclE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseOMPGroupPrivateDecl(clang::OMPGroupPrivateDecl*)", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE24maybeEmitDeferredVarInitEPKNS_7VarDeclE", "clang::interp::Compiler<clang::interp::EvalEmitter>::maybeEmitDeferredVarInit(clang::VarDecl const*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE23TraverseOMPForDirectiveEPKNS_15OMPForDirectiveE", "clang::DynamicRecursiveASTVisitorBase<true>::TraverseOMPForDirective(clang::OMPForDirective const*)", false},
  {"_ZN7testing15AssertionResultlsIA3_cEERS0_RKT_", "testing::AssertionResult& testing::AssertionResult::operator<< <char [3]>(char const (&) [3])", false},
  {"_ZN5clang6interp4FlipILNS0_8PrimTypeE11ELS2_10EEEbRNS0_11InterpStateENS0_7CodePtrE", "bool clang::interp::Flip<(clang::interp::PrimType)11, (clang::interp::PrimType)10>(clang::interp::InterpState&, clang::interp::CodePtr)", false},
  {"_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5beginEv", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::begin()", false},
  {"_ZNSt3mapIcPKcSt4lessIcESaISt4pairIS0_S1_EEED1Ev", "std::map<char, char const*, std::less<char>, std::allocator<std::pair<char const, char const*> > >::~map()", false},
  {"_ZNK5boost6locale15generic_codecvtIwNS0_4util14simple_codecvtIwEELi4EE9do_lengthER11__mbstate_tPKcS9_m", "boost::locale::generic_codecvt<wchar_t, boost::locale::util::simple_codecvt<wchar_t>, 4>::do_length(__mbstate_t&, char const*, char const*, unsigned long) const", false},
  {"_ZNSt14numeric_limitsIeE15tinyness_beforeE", "std::numeric_limits<long double>::tinyness_before", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE25WalkUpFromCXXForRangeStmtEPNS_15CXXForRangeStmtE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromCXXForRangeStmt(clang::CXXForRangeStmt*)", false},
  {"_ZN7testing8internal18InitGoogleTestImplIcEEvPiPPT_", "void testing::internal::InitGoogleTestImpl<char>(int*, char**)", false},
  {"_ZN4llvm7AArch648ArchInfo13findBySubArchENS_9StringRefE", "llvm::AArch64::ArchInfo::findBySubArch(llvm::StringRef)", false},
  {"_ZNSt7codecvtIcc11__mbstate_tEC2Em", "std::codecvt<char, char, __mbstate_t>::codecvt(unsigned long)", false},
  {"_ZN4llvm8RegistryIN5clang15PluginASTActionEE7entriesEv", "llvm::Registry<clang::PluginASTAction>::entries()", false},
  {"_ZZN5clang4ento17ProgramStateTraitIN4llvm12ImmutableSetINS0_15DynamicCastInfoENS2_17ImutContainerInfoIS4_EEEEE8GDMIndexEvE5Index", "clang::ento::ProgramStateTrait<llvm::ImmutableSet<clang::ento::DynamicCastInfo, llvm::ImutContainerInfo<clang::ento::DynamicCastInfo> > >::GDMIndex()::Index", false},
  {"_ZN5clang18EmitLLVMOnlyActionC2EPN4llvm11LLVMContextE", "clang::EmitLLVMOnlyAction::EmitLLVMOnlyAction(llvm::LLVMContext*)", false},
  {"_ZNSt13basic_filebufIwSt11char_traitsIwEE4syncEv", "std::basic_filebuf<wchar_t, std::char_traits<wchar_t> >::sync()", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE27VisitUnresolvedUsingTypeLocENS_22UnresolvedUsingTypeLocE", "clang::DynamicRecursiveASTVisitorBase<false>::VisitUnresolvedUsingTypeLoc(clang::UnresolvedUsingTypeLoc)", false},
  {"_ZNK5boost6locale8impl_icu9num_parseIwE6do_getESt19istreambuf_iteratorIwSt11char_traitsIwEES7_RSt8ios_baseRSt12_Ios_IostateRt", "boost::locale::impl_icu::num_parse<wchar_t>::do_get(std::istreambuf_iterator<wchar_t, std::char_traits<wchar_t> >, std::istreambuf_iterator<wchar_t, std::char_traits<wchar_t> >, std::ios_base&, std::_Ios_Iostate&, unsigned short&) const", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE25WalkUpFromObjCAtCatchStmtEPKNS_15ObjCAtCatchStmtE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromObjCAtCatchStmt(clang::ObjCAtCatchStmt const*)", false},
  {"_ZN5clang6Parser26parseOMPContextSelectorSetERNS_11OMPTraitSetERN4llvm9StringMapINS_14SourceLocationENS3_15MallocAllocatorEEE", "clang::Parser::parseOMPContextSelectorSet(clang::OMPTraitSet&, llvm::StringMap<clang::SourceLocation, llvm::MallocAllocator>&)", false},
  {"_ZN5boost3mpi6detail16computation_treeC2Eiiii", "boost::mpi::detail::computation_tree::computation_tree(int, int, int, int)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE38WalkUpFromSubstBuiltinTemplatePackTypeEPNS_28SubstBuiltinTemplatePackTypeE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromSubstBuiltinTemplatePackType(clang::SubstBuiltinTemplatePackType*)", false},
  {"_ZdlPvm", "operator delete(void*, unsigned long)", false},
  {"_ZNKSt7__cxx1110moneypunctIcLb0EE14do_frac_digitsEv", "std::__cxx11::moneypunct<char, false>::do_frac_digits() const", false},
  {"_ZNSt12__basic_fileIcE9showmanycEv", "std::__basic_file<char>::showmanyc()", false},
  {"_ZNSt6localeC2IN5boost6locale10impl_posix10num_formatIwEEEERKS_PT_", "std::locale::locale<boost::locale::impl_posix::num_format<wchar_t> >(std::locale const&, boost::locale::impl_posix::num_format<wchar_t>*)", false},
  {"_ZNK5boost7archive6detail18utf8_codecvt_facet6do_outER11__mbstate_tPKwS6_RS6_PcS8_RS8_", "boost::archive::detail::utf8_codecvt_facet::do_out(__mbstate_t&, wchar_t const*, wchar_t const*, wchar_t const*&, char*, char*, char*&) const", false},
  {"_ZN4llvm17DbgRecordParamRefINS_12DIExpressionEEC1EPKS1_", "llvm::DbgRecordParamRef<llvm::DIExpression>::DbgRecordParamRef(llvm::DIExpression const*)", false},
  {"_ZNSt10filesystem9copy_fileERKNS_4pathES2_NS_12copy_optionsE", "std::filesystem::copy_file(std::filesystem::path const&, std::filesystem::path const&, std::filesystem::copy_options)", false},
  {"_ZN4llvm13IRBuilderBase13CreatePtrDiffEPNS_4TypeEPNS_5ValueES4_RKNS_5TwineE", "llvm::IRBuilderBase::CreatePtrDiff(llvm::Type*, llvm::Value*, llvm::Value*, llvm::Twine const&)", false},
  {"_ZN5boost6python5numpy12_GLOBAL__N_122array_scalar_converterIeE10get_pytypeEv", "boost::python::numpy::(anonymous namespace)::array_scalar_converter<long double>::get_pytype()", false},
  {"_ZZNK5boost4urls7grammar13unsigned_ruleImE5parseERPKcS5_E11loc__LINE___2", "boost::urls::grammar::unsigned_rule<unsigned long>::parse(char const*&, char const*) const::loc__LINE__", false},
  {"_ZN5boost7archive6detail15common_oarchiveINS0_12xml_oarchiveEE5vsaveENS0_14object_id_typeE", "boost::archive::detail::common_oarchive<boost::archive::xml_oarchive>::vsave(boost::archive::object_id_type)", false},
  {"_ZN5clang13TreeTransformI38EnsureImmediateInvocationInDefaultArgsE23TransformOMPAlignClauseEPNS_14OMPAlignClauseE", "clang::TreeTransform<EnsureImmediateInvocationInDefaultArgs>::TransformOMPAlignClause(clang::OMPAlignClause*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE32VisitDependentSizedExtVectorTypeEPNS_27DependentSizedExtVectorTypeE", "clang::DynamicRecursiveASTVisitorBase<false>::VisitDependentSizedExtVectorType(clang::DependentSizedExtVectorType*)", false},
  {"_ZNSt9strstream6freezeEb", "std::strstream::freeze(bool)", false},
  {"_ZNSt14numeric_limitsIhE9is_iec559E", "std::numeric_limits<unsigned char>::is_iec559", false},
  {"_ZN5boost4json12basic_parserINS0_6detail7handlerEE10write_someEbPKcmRNS_6system10error_codeE", "boost::json::basic_parser<boost::json::detail::handler>::write_some(bool, char const*, unsigned long, boost::system::error_code&)", false},
  {"_ZN4llvm6AMDGPU17getArchAttrAMDGCNENS0_7GPUKindE", "llvm::AMDGPU::getArchAttrAMDGCN(llvm::AMDGPU::GPUKind)", false},
  {"_ZNSt10filesystem7__cxx1116filesystem_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS0_4pathESC_St10error_code", "std::filesystem::__cxx11::filesystem_error::filesystem_error(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, std::filesystem::__cxx11::path const&, std::filesystem::__cxx11::path const&, std::error_code)", false},
  {"_ZNK5boost10wrapexceptINS_9iostreams10zstd_errorEE7rethrowEv", "boost::wrapexcept<boost::iostreams::zstd_error>::rethrow() const", false},
  {"_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE7_S_copyEPwPKwm", "std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::_S_copy(wchar_t*, wchar_t const*, unsigned long)", false},
  {"_ZN5boost3log12v2s_mt_posix3aux27date_format_parser_callbackIcE20on_extended_iso_dateEv", "boost::log::v2s_mt_posix::aux::date_format_parser_callback<char>::on_extended_iso_date()", false},
  {"_ZTVN4llvm7support6detail23provider_format_adapterINS_4json5ValueEEE", "vtable for llvm::support::detail::provider_format_adapter<llvm::json::Value>", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE23TraverseCXXNoexceptExprEPNS_15CXXNoexceptExprE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseCXXNoexceptExpr(clang::CXXNoexceptExpr*)", false},
  {"_ZNSt14numeric_limitsIeE8is_exactE", "std::numeric_limits<long double>::is_exact", false},
  {"_ZNSt6vectorIN5boost6locale11gnu_gettext10mo_messageIcE16domain_data_typeESaIS5_EED2Ev", "std::vector<boost::locale::gnu_gettext::mo_message<char>::domain_data_type, std::allocator<boost::locale::gnu_gettext::mo_message<char>::domain_data_type> >::~vector()", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE27VisitCXXScalarValueInitExprEPKNS_22CXXScalarValueInitExprE", "clang::interp::Compiler<clang::interp::EvalEmitter>::VisitCXXScalarValueInitExpr(clang::CXXScalarValueInitExpr const*)", false},
  {"_ZN5clang8SemaHLSL25diagnoseAttrStageMismatchEPKNS_4AttrEN4llvm6Triple15EnvironmentTypeESt16initializer_listIS6_E", "clang::SemaHLSL::diagnoseAttrStageMismatch(clang::Attr const*, llvm::Triple::EnvironmentType, std::initializer_list<llvm::Triple::EnvironmentType>)", false},
  {"_ZNK5clang7CodeGen17TargetCodeGenInfo18getLLVMSyncScopeIDERKNS_11LangOptionsENS_9SyncScopeEN4llvm14AtomicOrderingERNS6_11LLVMContextE", "clang::CodeGen::TargetCodeGenInfo::getLLVMSyncScopeID(clang::LangOptions const&, clang::SyncScope, llvm::AtomicOrdering, llvm::LLVMContext&) const", false},
  {"_ZNSt13basic_filebufIcSt11char_traitsIcEE6xsgetnEPcl", "std::basic_filebuf<char, std::char_traits<char> >::xsgetn(char*, long)", false},
  {"_ZNSbIwSt11char_traitsIwESaIwEEC2IPwEET_S5_RKS1_", "std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::basic_string<wchar_t*>(wchar_t*, wchar_t*, std::allocator<wchar_t> const&)", false},
  {"_ZNSt6vectorIwSaIwEE17_M_default_appendEm", "std::vector<wchar_t, std::allocator<wchar_t> >::_M_default_append(unsigned long)", false},
  {"_ZGVZN5boost4json10serializer4readEPcmE4null", "guard variable for boost::json::serializer::read(char*, unsigned long)::null", false},
  {"_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE9underflowEv", "std::__cxx11::basic_stringbuf<char, std::char_traits<char>, std::allocator<char> >::underflow()", false},
  {"_ZNSt12strstreambufC2EPKhl", "std::strstreambuf::strstreambuf(unsigned char const*, long)", false},
  {"_ZN5boost6python3apimlERKNS1_6objectES4_", "boost::python::api::operator*(boost::python::api::object const&, boost::python::api::object const&)", false},
  {"_ZN5clang7CodeGen22SanitizerDebugLocationC2EPNS0_15CodeGenFunctionEN4llvm8ArrayRefINS_13SanitizerKind16SanitizerOrdinalEEE16SanitizerHandler", "clang::CodeGen::SanitizerDebugLocation::SanitizerDebugLocation(clang::CodeGen::CodeGenFunction*, llvm::ArrayRef<clang::SanitizerKind::SanitizerOrdinal>, SanitizerHandler)", false},
  {"_ZNSt12__basic_fileIcE8sys_openEP8_IO_FILESt13_Ios_Openmode", "std::__basic_file<char>::sys_open(_IO_FILE*, std::_Ios_Openmode)", false},
  {"_ZN4llvm4yaml6Output14beginDocumentsEv", "llvm::yaml::Output::beginDocuments()", false},
  {"_ZNSt14numeric_limitsIaE12has_infinityE", "std::numeric_limits<signed char>::has_infinity", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE31VisitOMPMaskedTaskLoopDirectiveEPKNS_26OMPMaskedTaskLoopDirectiveE", "clang::DynamicRecursiveASTVisitorBase<true>::VisitOMPMaskedTaskLoopDirective(clang::OMPMaskedTaskLoopDirective const*)", false},
  {"_ZNK5boost6locale15generic_codecvtIwNS0_4util14simple_codecvtIwEELi4EE5do_inER11__mbstate_tPKcS9_RS9_PwSB_RSB_", "boost::locale::generic_codecvt<wchar_t, boost::locale::util::simple_codecvt<wchar_t>, 4>::do_in(__mbstate_t&, char const*, char const*, char const*&, wchar_t*, wchar_t*, wchar_t*&) const", false},
  {"_ZNK4llvm8Constant10isOneValueEv", "llvm::Constant::isOneValue() const", false},
  {"_ZZN5boost4wave8cpplexer16lexing_exception14severity_levelEiE29preprocess_exception_severity", "boost::wave::cpplexer::lexing_exception::severity_level(int)::preprocess_exception_severity", false},
  {"_ZN5boost9date_time16period_formatterIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE30default_period_start_delimeterE", "boost::date_time::period_formatter<char, std::ostreambuf_iterator<char, std::char_traits<char> > >::default_period_start_delimeter", false},
  {"_ZNSt14numeric_limitsIoE6digitsE", "std::numeric_limits<unsigned __int128>::digits", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE25WalkUpFromLoopControlStmtEPKNS_15LoopControlStmtE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromLoopControlStmt(clang::LoopControlStmt const*)", false},
  {"_ZN5boost5debug19detect_memory_leaksEbNS_9unit_test13basic_cstringIKcEE", "boost::debug::detect_memory_leaks(bool, boost::unit_test::basic_cstring<char const>)", false},
  {"_ZNK5clang21RawPCHContainerReader10ExtractPCHEN4llvm15MemoryBufferRefE", "clang::RawPCHContainerReader::ExtractPCH(llvm::MemoryBufferRef) const", false},
  {"_ZN5clang19CudaStringToVersionERKN4llvm5TwineE", "clang::CudaStringToVersion(llvm::Twine const&)", false},
  {"_ZN5clang19RecursiveASTVisitorINS_16ParentMapContext9ParentMap10ASTVisitorEE28TraverseAssertCapabilityAttrEPNS_20AssertCapabilityAttrE", "clang::RecursiveASTVisitor<clang::ParentMapContext::ParentMap::ASTVisitor>::TraverseAssertCapabilityAttr(clang::AssertCapabilityAttr*)", false},
  {"_ZNSbIwSt11char_traitsIwESaIwEE7replaceEmmmw", "std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::replace(unsigned long, unsigned long, unsigned long, wchar_t)", false},
  {"_ZTIN2rc3SeqINS_10ShrinkableIyEEE8ISeqImplE", "typeinfo for rc::Seq<rc::Shrinkable<unsigned long long> >::ISeqImpl", false},
  {"_ZN5clang19RecursiveASTVisitorI18OpaqueValueVisitorE24VisitOMPNumThreadsClauseEPNS_19OMPNumThreadsClauseE", "clang::RecursiveASTVisitor<OpaqueValueVisitor>::VisitOMPNumThreadsClause(clang::OMPNumThreadsClause*)", false},
  {"_ZNSt12strstreambufC1EPalS0_", "std::strstreambuf::strstreambuf(signed char*, long, signed char*)", false},
  {"_ZN5boost4math24unchecked_factorial_dataIdLb1EE10factorialsE", "boost::math::unchecked_factorial_data<double, true>::factorials", false},
  {"_ZN5boost7archive19basic_text_oarchiveINS0_13text_oarchiveEE8newtokenEv", "boost::archive::basic_text_oarchive<boost::archive::text_oarchive>::newtoken()", false},
  {"_ZTVN5boost10filesystem14basic_ofstreamIcSt11char_traitsIcEEE", "vtable for boost::filesystem::basic_ofstream<char, std::char_traits<char> >", false},
  {"_ZN4llvm4Type9getHalfTyERNS_11LLVMContextE", "llvm::Type::getHalfTy(llvm::LLVMContext&)", false},
  {"_ZNSt7__cxx1117moneypunct_bynameIcLb1EE4intlE", "std::__cxx11::moneypunct_byname<char, true>::intl", false},
  {"_ZN5boost13property_tree6detail8rapidxml8internal13lookup_tablesILi0EE21lookup_attribute_nameE", "boost::property_tree::detail::rapidxml::internal::lookup_tables<0>::lookup_attribute_name", false},
  {"_ZN5boost7archive21basic_text_oprimitiveISt13basic_ostreamIwSt11char_traitsIwEEE11save_binaryEPKvm", "boost::archive::basic_text_oprimitive<std::basic_ostream<wchar_t, std::char_traits<wchar_t> > >::save_binary(void const*, unsigned long)", false},
  {"_ZNK4llvm5Regex3subENS_9StringRefES1_PNSt3__112basic_stringIcNS2_11char_traitsIcEENS2_9allocatorIcEEEE", "llvm::Regex::sub(llvm::StringRef, llvm::StringRef, std::__1::basic_string<char, std::__1::char_traits<char>, std::__1::allocator<char> >*) const", false},
  {"_ZN5clang13TreeTransformI38EnsureImmediateInvocationInDefaultArgsE31TransformOMPHasDeviceAddrClauseEPNS_22OMPHasDeviceAddrClauseE", "clang::TreeTransform<EnsureImmediateInvocationInDefaultArgs>::TransformOMPHasDeviceAddrClause(clang::OMPHasDeviceAddrClause*)", false},
  {"_ZN5clang7CodeGen11CGDebugInfo10CreateTypeEPKNS_9ArrayTypeEPN4llvm6DIFileE", "clang::CodeGen::CGDebugInfo::CreateType(clang::ArrayType const*, llvm::DIFile*)", false},
  {"_ZN5boost9iostreams6detail9zstd_base5afterERPKcRPcb", "boost::iostreams::detail::zstd_base::after(char const*&, char*&, bool)", false},
  {"_ZN4llvm19SanitizerStatReportC1EPNS_6ModuleE", "llvm::SanitizerStatReport::SanitizerStatReport(llvm::Module*)", false},
  {"_ZTIN5boost6detail17sp_counted_impl_pINS_5graph11distributed17mpi_process_group23global_trigger_launcherIiPFvRKS4_iiibEEEEE", "typeinfo for boost::detail::sp_counted_impl_p<boost::graph::distributed::mpi_process_group::global_trigger_launcher<int, void (*)(boost::graph::distributed::mpi_process_group const&, int, int, int, bool)> >", false},
  {"_ZNSt14numeric_limitsIbE5trapsE", "std::numeric_limits<bool>::traps", false},
  {"_ZNSt10filesystem28recursive_directory_iterator3popEv", "std::filesystem::recursive_directory_iterator::pop()", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE30WalkUpFromUnresolvedMemberExprEPKNS_20UnresolvedMemberExprE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromUnresolvedMemberExpr(clang::UnresolvedMemberExpr const*)", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE9emitConstIlEEbT_NS0_8PrimTypeEPKNS_4ExprE", "bool clang::interp::Compiler<clang::interp::EvalEmitter>::emitConst<long>(long, clang::interp::PrimType, clang::Expr const*)", false},
  {"_ZN5boost13re_detail_50019basic_regex_creatorIcNS_12regex_traitsIcNS_16cpp_regex_traitsIcEEEEE15create_startmapEPNS0_14re_syntax_baseEPhPjh", "boost::re_detail_500::basic_regex_creator<char, boost::regex_traits<char, boost::cpp_regex_traits<char> > >::create_startmap(boost::re_detail_500::re_syntax_base*, unsigned char*, unsigned int*, unsigned char)", false},
  {"_ZNSt13basic_istreamIwSt11char_traitsIwEErsERi", "std::basic_istream<wchar_t, std::char_traits<wchar_t> >::operator>>(int&)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE28TraverseRequiresExprBodyDeclEPNS_20RequiresExprBodyDeclE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseRequiresExprBodyDecl(clang::RequiresExprBodyDecl*)", false},
  {"_ZNKSt8time_putIwSt19ostreambuf_iteratorIwSt11char_traitsIwEEE3putES3_RSt8ios_basewPK2tmcc", "std::time_put<wchar_t, std::ostreambuf_iterator<wchar_t, std::char_traits<wchar_t> > >::put(std::ostreambuf_iterator<wchar_t, std::char_traits<wchar_t> >, std::ios_base&, wchar_t, tm const*, char, char) const", false},
  {"_ZN5clang6interp4FlipILNS0_8PrimTypeE4ELS2_4EEEbRNS0_11InterpStateENS0_7CodePtrE", "bool clang::interp::Flip<(clang::interp::PrimType)4, (clang::interp::PrimType)4>(clang::interp::InterpState&, clang::interp::CodePtr)", false},
  {"_ZN4llvm6Module22setStackProtectorGuardENS_9StringRefE", "llvm::Module::setStackProtectorGuard(llvm::StringRef)", false},
  {"_ZNKSt7__cxx117collateIwE9transformEPKwS3_", "std::__cxx11::collate<wchar_t>::transform(wchar_t const*, wchar_t const*) const", false},
  {"_ZNSt14numeric_limitsIeE12max_digits10E", "std::numeric_limits<long double>::max_digits10", false},
  {"_ZTv0_n24_NSt14basic_ifstreamIcSt11char_traitsIcEED0Ev", "virtual thunk to std::basic_ifstream<char, std::char_traits<char> >::~basic_ifstream()", false},
  {"_ZN4llvm8Function9addFnAttrENS_9AttributeE", "llvm::Function::addFnAttr(llvm::Attribute)", false},
  {"_ZZN5boost13re_detail_50018basic_regex_parserIwNS_12regex_traitsIwNS_16cpp_regex_traitsIwEEEEE18parse_repeat_rangeEbE18incomplete_message", "boost::re_detail_500::basic_regex_parser<wchar_t, boost::regex_traits<wchar_t, boost::cpp_regex_traits<wchar_t> > >::parse_repeat_range(bool)::incomplete_message", false},
  {"_ZN5boost3log12v2s_mt_posix3aux14char_constantsIcE8char_andE", "boost::log::v2s_mt_posix::aux::char_constants<char>::char_and", false},
  {"_ZNK5clang4Type5getAsINS_14ObjCObjectTypeEEEPKT_v", "clang::ObjCObjectType const* clang::Type::getAs<clang::ObjCObjectType>() const", false},
  {"_ZZNK5boost7runtime17value_interpreterIbLb0EE9interpretENS_9unit_test13basic_cstringIKcEES6_E3s_Y", "boost::runtime::value_interpreter<bool, false>::interpret(boost::unit_test::basic_cstring<char const>, boost::unit_test::basic_cstring<char const>) const::s_Y", false},
  {"_ZN5clang19RecursiveASTVisitorINS_10installapi17InstallAPIVisitorEE18TraverseMSGuidDeclEPNS_10MSGuidDeclE", "clang::RecursiveASTVisitor<clang::installapi::InstallAPIVisitor>::TraverseMSGuidDecl(clang::MSGuidDecl*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE33TraverseObjCAvailabilityCheckExprEPNS_25ObjCAvailabilityCheckExprE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseObjCAvailabilityCheckExpr(clang::ObjCAvailabilityCheckExpr*)", false},
  {"_ZN5clang19RecursiveASTVisitorINS_16ParentMapContext9ParentMap10ASTVisitorEE26VisitOMPDistScheduleClauseEPNS_21OMPDistScheduleClauseE", "clang::RecursiveASTVisitor<clang::ParentMapContext::ParentMap::ASTVisitor>::VisitOMPDistScheduleClause(clang::OMPDistScheduleClause*)", false},
  {"_ZNK4llvm3vfs10FileSystem12makeAbsoluteERNS_15SmallVectorImplIcEE", "llvm::vfs::FileSystem::makeAbsolute(llvm::SmallVectorImpl<char>&) const", false},
  {"_ZNSt15basic_streambufIwSt11char_traitsIwEE6setbufEPwl", "std::basic_streambuf<wchar_t, std::char_traits<wchar_t> >::setbuf(wchar_t*, long)", false},
  {"_ZN5boost3log12v2s_mt_posix3aux14char_constantsIwE16trim_spaces_leftEPKwS6_", "boost::log::v2s_mt_posix::aux::char_constants<wchar_t>::trim_spaces_left(wchar_t const*, wchar_t const*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE28WalkUpFromNamespaceAliasDeclEPNS_18NamespaceAliasDeclE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromNamespaceAliasDecl(clang::NamespaceAliasDecl*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE30TraverseLValueReferenceTypeLocENS_22LValueReferenceTypeLocEb", "clang::DynamicRecursiveASTVisitorBase<true>::TraverseLValueReferenceTypeLoc(clang::LValueReferenceTypeLoc, bool)", false},
  {"_ZNSt15basic_streambufIwSt11char_traitsIwEE12__safe_gbumpEl", "std::basic_streambuf<wchar_t, std::char_traits<wchar_t> >::__safe_gbump(long)", false},
  {"_ZNSt5dequeIcSaIcEE24_M_new_elements_at_frontEm", "std::deque<char, std::allocator<char> >::_M_new_elements_at_front(unsigned long)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE28TraverseBTFTagAttributedTypeEPKNS_20BTFTagAttributedTypeEb", "clang::DynamicRecursiveASTVisitorBase<true>::TraverseBTFTagAttributedType(clang::BTFTagAttributedType const*, bool)", false},
  {"_ZNK5clang4ento8RangeSet3pinERN4llvm6APSIntE", "clang::ento::RangeSet::pin(llvm::APSInt&) const", false},
  {"_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12__sv_wrapperC2ESt17basic_string_viewIcS2_E", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::__sv_wrapper::__sv_wrapper(std::basic_string_view<char, std::char_traits<char> >)", false},
  {"_ZNK5boost3any6holderIbE4typeEv", "boost::any::holder<bool>::type() const", false},
  {"_ZNSt10filesystem9proximateERKNS_7__cxx114pathES3_", "std::filesystem::proximate(std::filesystem::__cxx11::path const&, std::filesystem::__cxx11::path const&)", false},
  {"_ZN5boost9iostreams6detail10bzip2_base7do_initEbPFPvS3_iiEPFvS3_S3_ES3_", "boost::iostreams::detail::bzip2_base::do_init(bool, void* (*)(void*, int, int), void (*)(void*, void*), void*)", false},
  {"_ZTv0_n24_N5boost7archive21xml_archive_exceptionD1Ev", "virtual thunk to boost::archive::xml_archive_exception::~xml_archive_exception()", false},
  {"_ZN5clang8SemaHLSL20handleVkLocationAttrEPNS_4DeclERKNS_10ParsedAttrE", "clang::SemaHLSL::handleVkLocationAttr(clang::Decl*, clang::ParsedAttr const&)", false},
  {"_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE9_M_assignERKS4_", "std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::_M_assign(std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> > const&)", false},
  {"_ZN4llvm23getInstrProfSectionNameENS_17InstrProfSectKindENS_6Triple16ObjectFormatTypeEb", "llvm::getInstrProfSectionName(llvm::InstrProfSectKind, llvm::Triple::ObjectFormatType, bool)", false},
  {"_ZNSt6localeC1ERKS_S1_i", "std::locale::locale(std::locale const&, std::locale const&, int)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE27TraverseObjCBoolLiteralExprEPNS_19ObjCBoolLiteralExprE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseObjCBoolLiteralExpr(clang::ObjCBoolLiteralExpr*)", false},
  {"_ZZNK5boost4urls6detail15userinfo_rule_t5parseERPKcS4_E7pwchars", "boost::urls::detail::userinfo_rule_t::parse(char const*&, char const*) const::pwchars", false},
  {"_ZNK5boost4wave8cpplexer7re2clex13uchar_wrappercvPhEv", "boost::wave::cpplexer::re2clex::uchar_wrapper::operator unsigned char*() const", false},
  {"_ZN5boost6spirit6traits5scaleIdmEEbiRT_T0_", "bool boost::spirit::traits::scale<double, unsigned long>(int, double&, unsigned long)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE24WalkUpFromTypedefTypeLocENS_14TypedefTypeLocE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromTypedefTypeLoc(clang::TypedefTypeLoc)", false},
  {"_ZNKSt7__cxx1110moneypunctIcLb0EE10neg_formatEv", "std::__cxx11::moneypunct<char, false>::neg_format() const", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE25VisitOMPCriticalDirectiveEPNS_20OMPCriticalDirectiveE", "clang::DynamicRecursiveASTVisitorBase<false>::VisitOMPCriticalDirective(clang::OMPCriticalDirective*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE33TraverseBinaryConditionalOperatorEPNS_25BinaryConditionalOperatorE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseBinaryConditionalOperator(clang::BinaryConditionalOperator*)", false},
  {"_ZNKSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE13find_first_ofEwm", "std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::find_first_of(wchar_t, unsigned long) const", false},
  {"_ZNK10__cxxabiv117__pbase_type_info15__pointer_catchEPKS0_PPvj", "__cxxabiv1::__pbase_type_info::__pointer_catch(__cxxabiv1::__pbase_type_info const*, void**, unsigned int) const", false},
  {"_ZTTSt9strstream", "VTT for std::strstream", false},
  {"_ZN4llvm12APFixedPoint6getMinERKNS_19FixedPointSemanticsE", "llvm::APFixedPoint::getMin(llvm::FixedPointSemantics const&)", false},
  {"_ZN5clang13TreeTransformI38EnsureImmediateInvocationInDefaultArgsE34TransformMatrixSingleSubscriptExprEPNS_25MatrixSingleSubscriptExprE", "clang::TreeTransform<EnsureImmediateInvocationInDefaultArgs>::TransformMatrixSingleSubscriptExpr(clang::MatrixSingleSubscriptExpr*)", false},
  {"_ZNK5boost13serialization14no_rtti_system28extended_type_info_no_rtti_08is_equalERKNS0_18extended_type_infoE", "boost::serialization::no_rtti_system::extended_type_info_no_rtti_0::is_equal(boost::serialization::extended_type_info const&) const", false},
  {"_ZN5boost9date_time10time_facetINS_10posix_time5ptimeEcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE27duration_sign_negative_onlyE", "boost::date_time::time_facet<boost::posix_time::ptime, char, std::ostreambuf_iterator<char, std::char_traits<char> > >::duration_sign_negative_only", false},
  {"_ZNSt11__timepunctIwEC1EPSt17__timepunct_cacheIwEm", "std::__timepunct<wchar_t>::__timepunct(std::__timepunct_cache<wchar_t>*, unsigned long)", false},
  {"_ZN5clang8SemaSYCL16DiagIfDeviceCodeENS_14SourceLocationEj", "clang::SemaSYCL::DiagIfDeviceCode(clang::SourceLocation, unsigned int)", false},
  {"_ZN5clang6interp4FlipILNS0_8PrimTypeE8ELS2_7EEEbRNS0_11InterpStateENS0_7CodePtrE", "bool clang::interp::Flip<(clang::interp::PrimType)8, (clang::interp::PrimType)7>(clang::interp::InterpState&, clang::interp::CodePtr)", false},
  {"_ZN5boost13re_detail_50012perl_matcherIPKcSaINS_9sub_matchIS3_EEENS_14c_regex_traitsIcEEE22unwind_fast_dot_repeatEb", "boost::re_detail_500::perl_matcher<char const*, std::allocator<boost::sub_match<char const*> >, boost::c_regex_traits<char> >::unwind_fast_dot_repeat(bool)", false},
  {"_ZNSt8numpunctIcE22_M_initialize_numpunctEP15__locale_struct", "std::numpunct<char>::_M_initialize_numpunct(__locale_struct*)", false},
  {"_ZNSt14numeric_limitsIfE8digits10E", "std::numeric_limits<float>::digits10", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE40TraverseSubstNonTypeTemplateParmPackExprEPNS_32SubstNonTypeTemplateParmPackExprE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseSubstNonTypeTemplateParmPackExpr(clang::SubstNonTypeTemplateParmPackExpr*)", false},
  {"_ZNKSt7__cxx1110moneypunctIwLb0EE11curr_symbolEv", "std::__cxx11::moneypunct<wchar_t, false>::curr_symbol() const", false},
  {"_ZNKSbIwSt11char_traitsIwESaIwEEcvSt17basic_string_viewIwS0_EEv", "std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::operator std::basic_string_view<wchar_t, std::char_traits<wchar_t> >() const", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE27VisitCXXTemporaryObjectExprEPKNS_22CXXTemporaryObjectExprE", "clang::DynamicRecursiveASTVisitorBase<true>::VisitCXXTemporaryObjectExpr(clang::CXXTemporaryObjectExpr const*)", false},
  {"_ZThn32_N5boost10wrapexceptINS_13property_tree14ptree_bad_pathEED1Ev", "non-virtual thunk to boost::wrapexcept<boost::property_tree::ptree_bad_path>::~wrapexcept()", false},
  {"_ZN5clang19RecursiveASTVisitorI18OpaqueValueVisitorE30TraverseFunctionNoProtoTypeLocENS_22FunctionNoProtoTypeLocEb", "clang::RecursiveASTVisitor<OpaqueValueVisitor>::TraverseFunctionNoProtoTypeLoc(clang::FunctionNoProtoTypeLoc, bool)", false},
  {"_ZN5boost10filesystem6detail11dir_itr_impdlEPv", "boost::filesystem::detail::dir_itr_imp::operator delete(void*)", false},
  {"_ZNKSt7__cxx118messagesIwE18_M_convert_to_charERKNS_12basic_stringIwSt11char_traitsIwESaIwEEE", "std::__cxx11::messages<wchar_t>::_M_convert_to_char(std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> > const&) const", false},
  {"_ZNKSt3tr14hashIRKSbIwSt11char_traitsIwESaIwEEEclES6_", "std::tr1::hash<std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> > const&>::operator()(std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> > const&) const", false},
  {"_ZNKSt15basic_streambufIcSt11char_traitsIcEE5epptrEv", "std::basic_streambuf<char, std::char_traits<char> >::epptr() const", false},
  {"_ZNSt10filesystem8absoluteERKNS_4pathE", "std::filesystem::absolute(std::filesystem::path const&)", false},
  {"_ZN5clang19RecursiveASTVisitorI18OpaqueValueVisitorE34TraverseConstructorUsingShadowDeclEPNS_26ConstructorUsingShadowDeclE", "clang::RecursiveASTVisitor<OpaqueValueVisitor>::TraverseConstructorUsingShadowDecl(clang::ConstructorUsingShadowDecl*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE29WalkUpFromOMPCapturedExprDeclEPKNS_19OMPCapturedExprDeclE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromOMPCapturedExprDecl(clang::OMPCapturedExprDecl const*)", false},
  {"_ZN4llvm9ArrayType3getEPNS_4TypeEm", "llvm::ArrayType::get(llvm::Type*, unsigned long)", false},
  {"_ZZN5boost10coroutines18coroutine_categoryEvE3cat", "boost::coroutines::coroutine_category()::cat", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE28WalkUpFromMacroQualifiedTypeEPNS_18MacroQualifiedTypeE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromMacroQualifiedType(clang::MacroQualifiedType*)", false},
  {"_ZN5boost4math3tr110fpclassifyIeEEiT_", "int boost::math::tr1::fpclassify<long double>(long double)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE34VisitTemplateSpecializationTypeLocENS_29TemplateSpecializationTypeLocE", "clang::DynamicRecursiveASTVisitorBase<false>::VisitTemplateSpecializationTypeLoc(clang::TemplateSpecializationTypeLoc)", false},
  {"_ZNKSt7__cxx1110moneypunctIwLb0EE10pos_formatEv", "std::__cxx11::moneypunct<wchar_t, false>::pos_format() const", false},
  {"_ZN4llvm9MDBuilder22createCallbackEncodingEjNS_8ArrayRefIiEEb", "llvm::MDBuilder::createCallbackEncoding(unsigned int, llvm::ArrayRef<int>, bool)", false},
  {"_ZNKSbIwSt11char_traitsIwESaIwEE12find_last_ofERKS2_m", "std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::find_last_of(std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> > const&, unsigned long) const", false},
  {"_ZNSt13basic_istreamIwSt11char_traitsIwEE5seekgElSt12_Ios_Seekdir", "std::basic_istream<wchar_t, std::char_traits<wchar_t> >::seekg(long, std::_Ios_Seekdir)", false},
  {"_ZNK4llvm22ConstantDataSequential20getElementAsConstantEm", "llvm::ConstantDataSequential::getElementAsConstant(unsigned long) const", false},
  {"_ZThn24_N5clang9ASTReader23GetNumExternalSelectorsEv", "non-virtual thunk to clang::ASTReader::GetNumExternalSelectors()", false},
  {"_ZN4llvm14LandingPadInst9addClauseEPNS_8ConstantE", "llvm::LandingPadInst::addClause(llvm::Constant*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE32WalkUpFromHLSLInlineSpirvTypeLocENS_22HLSLInlineSpirvTypeLocE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromHLSLInlineSpirvTypeLoc(clang::HLSLInlineSpirvTypeLoc)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE32WalkUpFromPredefinedSugarTypeLocENS_22PredefinedSugarTypeLocE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromPredefinedSugarTypeLoc(clang::PredefinedSugarTypeLoc)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE28WalkUpFromOMPAtomicDirectiveEPKNS_18OMPAtomicDirectiveE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromOMPAtomicDirective(clang::OMPAtomicDirective const*)", false},
  {"_ZNSt10filesystem12copy_symlinkERKNS_4pathES2_", "std::filesystem::copy_symlink(std::filesystem::path const&, std::filesystem::path const&)", false},
  {"_ZNKSt5ctypeIwE9do_narrowEwc", "std::ctype<wchar_t>::do_narrow(wchar_t, char) const", false},
  {"_ZNSbIwSt11char_traitsIwESaIwEE4_Rep20_S_empty_rep_storageE", "std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::_Rep::_S_empty_rep_storage", false},
  {"_ZN4llvm28TargetLibraryInfoWrapperPassC1ERKNS_21TargetLibraryInfoImplE", "llvm::TargetLibraryInfoWrapperPass::TargetLibraryInfoWrapperPass(llvm::TargetLibraryInfoImpl const&)", false},
  {"_ZNKSt9strstream6pcountEv", "std::strstream::pcount() const", false},
  {"_ZN5clang15BackendConsumer20StackSizeDiagHandlerERKN4llvm23DiagnosticInfoStackSizeE", "clang::BackendConsumer::StackSizeDiagHandler(llvm::DiagnosticInfoStackSize const&)", false},
  {"_ZN5clang19RecursiveASTVisitorINS_16ParentMapContext9ParentMap10ASTVisitorEE28TraverseAMDGPUWavesPerEUAttrEPNS_20AMDGPUWavesPerEUAttrE", "clang::RecursiveASTVisitor<clang::ParentMapContext::ParentMap::ASTVisitor>::TraverseAMDGPUWavesPerEUAttr(clang::AMDGPUWavesPerEUAttr*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE34WalkUpFromOpenACCExitDataConstructEPNS_24OpenACCExitDataConstructE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromOpenACCExitDataConstruct(clang::OpenACCExitDataConstruct*)", false},
  {"_ZNK5boost6random13random_device7entropyEv", "boost::random::random_device::entropy() const", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE17VisitLogicalBinOpEPKNS_14BinaryOperatorE", "clang::interp::Compiler<clang::interp::EvalEmitter>::VisitLogicalBinOp(clang::BinaryOperator const*)", false},
  {"_ZN4llvm4yaml2IO21processKeyWithDefaultIN5clang15NullabilityKindENS0_12EmptyContextEEEvNS_9StringRefERNSt3__18optionalIT_EERKSA_bRT0_", "void llvm::yaml::IO::processKeyWithDefault<clang::NullabilityKind, llvm::yaml::EmptyContext>(llvm::StringRef, std::__1::optional<clang::NullabilityKind>&, std::__1::optional<clang::NullabilityKind> const&, bool, llvm::yaml::EmptyContext&)", false},
  {"_ZN4llvm24EnableSingleByteCoverageE", "llvm::EnableSingleByteCoverage", false},
  {"_ZNKSt7__cxx118numpunctIwE13decimal_pointEv", "std::__cxx11::numpunct<wchar_t>::decimal_point() const", false},
  {"_ZN4llvm5MachO11DylibReader27accumulateSourceLocFromDSYMENS_9StringRefERKNS0_6TargetE", "llvm::MachO::DylibReader::accumulateSourceLocFromDSYM(llvm::StringRef, llvm::MachO::Target const&)", false},
  {"_ZnwmRKSt9nothrow_t", "operator new(unsigned long, std::nothrow_t const&)", false},
  {"_ZNSt13basic_ostreamIwSt11char_traitsIwEE9_M_insertIeEERS2_T_", "std::basic_ostream<wchar_t, std::char_traits<wchar_t> >& std::basic_ostream<wchar_t, std::char_traits<wchar_t> >::_M_insert<long double>(long double)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE25VisitOutlinedFunctionDeclEPNS_20OutlinedFunctionDeclE", "clang::DynamicRecursiveASTVisitorBase<false>::VisitOutlinedFunctionDecl(clang::OutlinedFunctionDecl*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE34WalkUpFromDesignatedInitUpdateExprEPNS_24DesignatedInitUpdateExprE", "clang::DynamicRecursiveASTVisitorBase<false>::WalkUpFromDesignatedInitUpdateExpr(clang::DesignatedInitUpdateExpr*)", false},
  {"_ZGVZN5boost6locale4impl8ios_propINS0_8ios_infoEE6get_idEvE2id", "guard variable for boost::locale::impl::ios_prop<boost::locale::ios_info>::get_id()::id", false},
  {"_ZNKSt5ctypeIwE8do_widenEPKcS2_Pw", "std::ctype<wchar_t>::do_widen(char const*, char const*, wchar_t*) const", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE24TraverseOMPCanonicalLoopEPKNS_16OMPCanonicalLoopE", "clang::DynamicRecursiveASTVisitorBase<true>::TraverseOMPCanonicalLoop(clang::OMPCanonicalLoop const*)", false},
  {"_ZN5boost7archive17basic_xml_grammarIwE13return_valuesC1Ev", "boost::archive::basic_xml_grammar<wchar_t>::return_values::return_values()", false},
  {"_ZN5boost14c_regex_traitsIwE16lookup_classnameEPKwS3_", "boost::c_regex_traits<wchar_t>::lookup_classname(wchar_t const*, wchar_t const*)", false},
  {"_ZN4llvm12DenseMapInfoINS_9StringRefEvE12getHashValueES1_", "llvm::DenseMapInfo<llvm::StringRef, void>::getHashValue(llvm::StringRef)", false},
  {"_ZNSt14numeric_limitsInE17has_signaling_NaNE", "std::numeric_limits<__int128>::has_signaling_NaN", false},
  {"_ZThn24_N5boost10wrapexceptISt11logic_errorED0Ev", "non-virtual thunk to boost::wrapexcept<std::logic_error>::~wrapexcept()", false},
  {"_ZN5boost6python10make_tupleIPKcA4_cmEENS0_5tupleERKT_RKT0_RKT1_", "boost::python::tuple boost::python::make_tuple<char const*, char [4], unsigned long>(char const* const&, char const (&) [4], unsigned long const&)", false},
  {"_ZN5boost6detail18lcast_ret_unsignedISt11char_traitsIcEjcE22main_convert_iterationEv", "boost::detail::lcast_ret_unsigned<std::char_traits<char>, unsigned int, char>::main_convert_iteration()", false},
  {"_ZN5clang16SourceMgrAdapter11mapLocationERKN4llvm9SourceMgrENS1_5SMLocE", "clang::SourceMgrAdapter::mapLocation(llvm::SourceMgr const&, llvm::SMLoc)", false},
  {"_ZN4llvm9GlobalsAA3KeyE", "llvm::GlobalsAA::Key", false},
  {"_ZNK5boost13re_detail_50027cpp_regex_traits_char_layerIwE18escape_syntax_typeEw", "boost::re_detail_500::cpp_regex_traits_char_layer<wchar_t>::escape_syntax_type(wchar_t) const", false},
  {"_ZNSt8ios_base17register_callbackEPFvNS_5eventERS_iEi", "std::ios_base::register_callback(void (*)(std::ios_base::event, std::ios_base&, int), int)", false},
  {"_ZNK4llvm25OffloadEntriesInfoManager5emptyEv", "llvm::OffloadEntriesInfoManager::empty() const", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE13refersToUnionEPKNS_4ExprE", "clang::interp::Compiler<clang::interp::EvalEmitter>::refersToUnion(clang::Expr const*)", false},
  {"_ZN5boost6python3apirmIA36_cNS0_5tupleEEENS1_13enable_binaryIT_T0_NS1_6objectEE4typeERKS6_RKS7_", "boost::python::api::enable_binary<char [36], boost::python::tuple, boost::python::api::object>::type boost::python::api::operator%<char [36], boost::python::tuple>(char const (&) [36], boost::python::tuple const&)", false},
  {"_ZNKSt19__codecvt_utf8_baseIwE10do_unshiftER11__mbstate_tPcS3_RS3_", "std::__codecvt_utf8_base<wchar_t>::do_unshift(__mbstate_t&, char*, char*, char*&) const", false},
  {"_ZN10__gnu_norm15_List_node_base7reverseEv", "__gnu_norm::_List_node_base::reverse()", false},
  {"_ZN5boost4urls6detail13segments_iterIPKNS_4core17basic_string_viewIcEEE7measureERm", "boost::urls::detail::segments_iter<boost::core::basic_string_view<char> const*>::measure(unsigned long&)", false},
  {"_ZN4llvm3X8612parseTuneCPUENS_9StringRefEb", "llvm::X86::parseTuneCPU(llvm::StringRef, bool)", false},
  {"_ZN4llvm3orc16ExecutionSessionD1Ev", "llvm::orc::ExecutionSession::~ExecutionSession()", false},
  {"_ZN2rc6detail5param12_GLOBAL__N_120DummyPropertyContext9logStreamEv", "rc::detail::param::(anonymous namespace)::DummyPropertyContext::logStream()", false},
  {"_ZN5clang7CodeGen15CodeGenFunction20EmitBranchOnBoolExprEPKNS_4ExprEPN4llvm10BasicBlockES7_mNS_4Stmt10LikelihoodES4_PKNS_7VarDeclE", "clang::CodeGen::CodeGenFunction::EmitBranchOnBoolExpr(clang::Expr const*, llvm::BasicBlock*, llvm::BasicBlock*, unsigned long, clang::Stmt::Likelihood, clang::Expr const*, clang::VarDecl const*)", false},
  {"_ZTS2tm", "typeinfo name for tm", false},
  {"_ZN4llvm7codegen14getFeatureListEv", "llvm::codegen::getFeatureList()", false},
  {"_ZTVN4llvm27DiagnosticPrinterRawOStreamE", "vtable for llvm::DiagnosticPrinterRawOStream", false},
  {"_ZN5clang6interp8CompilerINS0_15ByteCodeEmitterEE15emitComplexRealEPKNS_4ExprE", "clang::interp::Compiler<clang::interp::ByteCodeEmitter>::emitComplexReal(clang::Expr const*)", false},
  {"_ZNSt11__timepunctIcE23_M_initialize_timepunctEP15__locale_struct", "std::__timepunct<char>::_M_initialize_timepunct(__locale_struct*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE20TraverseOffsetOfExprEPNS_12OffsetOfExprE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseOffsetOfExpr(clang::OffsetOfExpr*)", false},
  {"_ZN5boost3mpi6detail18make_skipped_slotsERKNS0_12communicatorEPKiS6_i", "boost::mpi::detail::make_skipped_slots(boost::mpi::communicator const&, int const*, int const*, int)", false},
  {"_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE11_M_disjunctEPKc", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::_M_disjunct(char const*) const", false},
  {"_ZN4llvm11GlobalAlias10setAliaseeEPNS_8ConstantE", "llvm::GlobalAlias::setAliasee(llvm::Constant*)", false},
  {"_ZN5boost10test_tools18output_test_stream5flushEv", "boost::test_tools::output_test_stream::flush()", false},
  {"_ZN5clang6interp4FlipILNS0_8PrimTypeE5ELS2_8EEEbRNS0_11InterpStateENS0_7CodePtrE", "bool clang::interp::Flip<(clang::interp::PrimType)5, (clang::interp::PrimType)8>(clang::interp::InterpState&, clang::interp::CodePtr)", false},
  {"_ZNK5boost16cpp_regex_traitsIcE7isctypeEcj", "boost::cpp_regex_traits<char>::isctype(char, unsigned int) const", false},
  {"_ZNSt14numeric_limitsIdE5radixE", "std::numeric_limits<double>::radix", false},
  {"_ZNK4llvm3sys4path16reverse_iteratormiERKS2_", "llvm::sys::path::reverse_iterator::operator-(llvm::sys::path::reverse_iterator const&) const", false},
  {"_ZNSt7__cxx1110moneypunctIcLb0EE24_M_initialize_moneypunctEP15__locale_structPKc", "std::__cxx11::moneypunct<char, false>::_M_initialize_moneypunct(__locale_struct*, char const*)", false},
  {"_ZN5clang8SemaCUDA14DiagIfHostCodeENS_14SourceLocationEj", "clang::SemaCUDA::DiagIfHostCode(clang::SourceLocation, unsigned int)", false},
  {"_ZTSN2rc10ShrinkableIhE15IShrinkableImplE", "typeinfo name for rc::Shrinkable<unsigned char>::IShrinkableImpl", false},
  {"_ZN4llvm10make_rangeIN5clang4ento7SymExpr15symbol_iteratorEEENS_14iterator_rangeIT_EES6_S6_", "llvm::iterator_range<clang::ento::SymExpr::symbol_iterator> llvm::make_range<clang::ento::SymExpr::symbol_iterator>(clang::ento::SymExpr::symbol_iterator, clang::ento::SymExpr::symbol_iterator)", false},
  {"_ZNKSt11__timepunctIcE15_M_am_pm_formatEPKc", "std::__timepunct<char>::_M_am_pm_format(char const*) const", false},
  {"_ZN5clang19RecursiveASTVisitorINS_16ParentMapContext9ParentMap10ASTVisitorEE25TraverseDeclContextHelperEPNS_11DeclContextE", "clang::RecursiveASTVisitor<clang::ParentMapContext::ParentMap::ASTVisitor>::TraverseDeclContextHelper(clang::DeclContext*)", false},
  {"_ZNSt14numeric_limitsIbE13has_quiet_NaNE", "std::numeric_limits<bool>::has_quiet_NaN", false},
  {"_ZNK5clang23TestModuleFileExtension13hashExtensionERN4llvm11HashBuilderINS1_3MD5ELNS1_10endiannessE1EEE", "clang::TestModuleFileExtension::hashExtension(llvm::HashBuilder<llvm::MD5, (llvm::endianness)1>&) const", false},
  {"_ZN6icu_7413UnicodeStringC1EPKciP10UConverterR10UErrorCode", "icu_74::UnicodeString::UnicodeString(char const*, int, UConverter*, UErrorCode&)", false},
  {"_ZN5boost4json12basic_parserINS0_6detail7handlerEE13maybe_suspendEPKcNS4_5stateERKNS4_6numberE", "boost::json::basic_parser<boost::json::detail::handler>::maybe_suspend(char const*, boost::json::basic_parser<boost::json::detail::handler>::state, boost::json::basic_parser<boost::json::detail::handler>::number const&)", false},
  {"_ZN4llvm6SHA2564hashENS_8ArrayRefIhEE", "llvm::SHA256::hash(llvm::ArrayRef<unsigned char>)", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE9getRecordENS_8QualTypeE", "clang::interp::Compiler<clang::interp::EvalEmitter>::getRecord(clang::QualType)", false},
  {"_ZTSPKf", "typeinfo name for float const*", false},
  {"_ZZN2rc6detail5param22CurrentPropertyContext12defaultValueEvE12dummyContext", "rc::detail::param::CurrentPropertyContext::defaultValue()::dummyContext", false},
  {"_ZN5clang8SemaHLSL25ActOnEndOfTranslationUnitEPNS_19TranslationUnitDeclE", "clang::SemaHLSL::ActOnEndOfTranslationUnit(clang::TranslationUnitDecl*)", false},
  {"_ZN4llvm17IDFCalculatorBaseIN5clang8CFGBlockELb1EE9calculateERNS_15SmallVectorImplIPS2_EE", "llvm::IDFCalculatorBase<clang::CFGBlock, true>::calculate(llvm::SmallVectorImpl<clang::CFGBlock*>&)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE26VisitOMPLoopBasedDirectiveEPKNS_21OMPLoopBasedDirectiveE", "clang::DynamicRecursiveASTVisitorBase<true>::VisitOMPLoopBasedDirective(clang::OMPLoopBasedDirective const*)", false},
  {"_ZN4llvm10ConstantFP11getInfinityEPNS_4TypeEb", "llvm::ConstantFP::getInfinity(llvm::Type*, bool)", false},
  {"_ZN5boost3mpi20cartesian_dimensionsEiRSt6vectorIiSaIiEE", "boost::mpi::cartesian_dimensions(int, std::vector<int, std::allocator<int> >&)", false},
  {"_ZN5clang6interp8CompilerINS0_11EvalEmitterEE25visitZeroArrayInitializerENS_8QualTypeEPKNS_4ExprE", "clang::interp::Compiler<clang::interp::EvalEmitter>::visitZeroArrayInitializer(clang::QualType, clang::Expr const*)", false},
  {"_ZN4llvm9FenceInstC1ERNS_11LLVMContextENS_14AtomicOrderingEhNS_14InsertPositionE", "llvm::FenceInst::FenceInst(llvm::LLVMContext&, llvm::AtomicOrdering, unsigned char, llvm::InsertPosition)", false},
  {"_ZNK5boost6locale8impl_icu12collate_implIwE7do_hashENS0_13collate_levelEPKwS6_", "boost::locale::impl_icu::collate_impl<wchar_t>::do_hash(boost::locale::collate_level, wchar_t const*, wchar_t const*) const", false},
  {"_ZN5clang6driver5tools3arm17getARMCPUForMArchEN4llvm9StringRefERKNS3_6TripleE", "clang::driver::tools::arm::getARMCPUForMArch(llvm::StringRef, llvm::Triple const&)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE25VisitCXXBindTemporaryExprEPKNS_20CXXBindTemporaryExprE", "clang::DynamicRecursiveASTVisitorBase<true>::VisitCXXBindTemporaryExpr(clang::CXXBindTemporaryExpr const*)", false},
  {"_ZNSt15basic_streambufIwSt11char_traitsIwEE5imbueERKSt6locale", "std::basic_streambuf<wchar_t, std::char_traits<wchar_t> >::imbue(std::locale const&)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb1EE20WalkUpFromGCCAsmStmtEPKNS_10GCCAsmStmtE", "clang::DynamicRecursiveASTVisitorBase<true>::WalkUpFromGCCAsmStmt(clang::GCCAsmStmt const*)", false},
  {"_ZN5clang8SemaWasm19BuiltinWasmTableGetEPNS_8CallExprE", "clang::SemaWasm::BuiltinWasmTableGet(clang::CallExpr*)", false},
  {"_ZN5clang30DynamicRecursiveASTVisitorBaseILb0EE31TraverseCXXPseudoDestructorExprEPNS_23CXXPseudoDestructorExprE", "clang::DynamicRecursiveASTVisitorBase<false>::TraverseCXXPseudoDestructorExpr(clang::CXXPseudoDestructorExpr*)", false},
