package main

import (
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// vocabulary pairs what the library exports as names of the specification with those names (SPDX 2.3, clauses 7.9,
// 8.4 and 11.1 and annex F).
var vocabulary = [][2]string{
	{common.CategorySecurity, "SECURITY"},
	{common.TypeSecurityCPE23Type, "cpe23Type"},
	{common.TypeSecurityCPE22Type, "cpe22Type"},
	{common.TypeSecurityAdvisory, "advisory"},
	{common.TypeSecurityFix, "fix"},
	{common.TypeSecurityUrl, "url"},
	{common.TypeSecuritySwid, "swid"},
	{common.CategoryPackageManager, "PACKAGE-MANAGER"},
	{common.TypePackageManagerMavenCentral, "maven-central"},
	{common.TypePackageManagerNpm, "npm"},
	{common.TypePackageManagerNuGet, "nuget"},
	{common.TypePackageManagerBower, "bower"},
	{common.TypePackageManagerPURL, "purl"},
	{common.CategoryPersistentId, "PERSISTENT-ID"},
	{common.TypePersistentIdSwh, "swh"},
	{common.TypePersistentIdGitoid, "gitoid"},
	{common.CategoryOther, "OTHER"},
	{common.TypeRelationshipDescribe, "DESCRIBES"},
	{common.TypeRelationshipDescribeBy, "DESCRIBED_BY"},
	{common.TypeRelationshipContains, "CONTAINS"},
	{common.TypeRelationshipContainedBy, "CONTAINED_BY"},
	{common.TypeRelationshipDependsOn, "DEPENDS_ON"},
	{common.TypeRelationshipDependencyOf, "DEPENDENCY_OF"},
	{common.TypeRelationshipBuildDependencyOf, "BUILD_DEPENDENCY_OF"},
	{common.TypeRelationshipDevDependencyOf, "DEV_DEPENDENCY_OF"},
	{common.TypeRelationshipOptionalDependencyOf, "OPTIONAL_DEPENDENCY_OF"},
	{common.TypeRelationshipProvidedDependencyOf, "PROVIDED_DEPENDENCY_OF"},
	{common.TypeRelationshipTestDependencyOf, "TEST_DEPENDENCY_OF"},
	{common.TypeRelationshipRuntimeDependencyOf, "RUNTIME_DEPENDENCY_OF"},
	{common.TypeRelationshipExampleOf, "EXAMPLE_OF"},
	{common.TypeRelationshipGenerates, "GENERATES"},
	{common.TypeRelationshipGeneratedFrom, "GENERATED_FROM"},
	{common.TypeRelationshipAncestorOf, "ANCESTOR_OF"},
	{common.TypeRelationshipDescendantOf, "DESCENDANT_OF"},
	{common.TypeRelationshipVariantOf, "VARIANT_OF"},
	{common.TypeRelationshipDistributionArtifact, "DISTRIBUTION_ARTIFACT"},
	{common.TypeRelationshipPatchFor, "PATCH_FOR"},
	{common.TypeRelationshipPatchApplied, "PATCH_APPLIED"},
	{common.TypeRelationshipCopyOf, "COPY_OF"},
	{common.TypeRelationshipFileAdded, "FILE_ADDED"},
	{common.TypeRelationshipFileDeleted, "FILE_DELETED"},
	{common.TypeRelationshipFileModified, "FILE_MODIFIED"},
	{common.TypeRelationshipExpandedFromArchive, "EXPANDED_FROM_ARCHIVE"},
	{common.TypeRelationshipDynamicLink, "DYNAMIC_LINK"},
	{common.TypeRelationshipStaticLink, "STATIC_LINK"},
	{common.TypeRelationshipDataFileOf, "DATA_FILE_OF"},
	{common.TypeRelationshipTestCaseOf, "TEST_CASE_OF"},
	{common.TypeRelationshipBuildToolOf, "BUILD_TOOL_OF"},
	{common.TypeRelationshipDevToolOf, "DEV_TOOL_OF"},
	{common.TypeRelationshipTestOf, "TEST_OF"},
	{common.TypeRelationshipTestToolOf, "TEST_TOOL_OF"},
	{common.TypeRelationshipDocumentationOf, "DOCUMENTATION_OF"},
	{common.TypeRelationshipOptionalComponentOf, "OPTIONAL_COMPONENT_OF"},
	{common.TypeRelationshipMetafileOf, "METAFILE_OF"},
	{common.TypeRelationshipPackageOf, "PACKAGE_OF"},
	{common.TypeRelationshipAmends, "AMENDS"},
	{common.TypeRelationshipPrerequisiteFor, "PREREQUISITE_FOR"},
	{common.TypeRelationshipHasPrerequisite, "HAS_PREREQUISITE"},
	{common.TypeRelationshipRequirementDescriptionFor, "REQUIREMENT_DESCRIPTION_FOR"},
	{common.TypeRelationshipSpecificationFor, "SPECIFICATION_FOR"},
	{common.TypeRelationshipOther, "OTHER"},
	{string(common.SHA224), "SHA224"}, {string(spdx.SHA224), "SHA224"},
	{string(common.SHA1), "SHA1"}, {string(spdx.SHA1), "SHA1"},
	{string(common.SHA256), "SHA256"}, {string(spdx.SHA256), "SHA256"},
	{string(common.SHA384), "SHA384"}, {string(spdx.SHA384), "SHA384"},
	{string(common.SHA512), "SHA512"}, {string(spdx.SHA512), "SHA512"},
	{string(common.MD2), "MD2"}, {string(spdx.MD2), "MD2"},
	{string(common.MD4), "MD4"}, {string(spdx.MD4), "MD4"},
	{string(common.MD5), "MD5"}, {string(spdx.MD5), "MD5"},
	{string(common.MD6), "MD6"}, {string(spdx.MD6), "MD6"},
	{string(common.SHA3_256), "SHA3-256"}, {string(spdx.SHA3_256), "SHA3-256"},
	{string(common.SHA3_384), "SHA3-384"}, {string(spdx.SHA3_384), "SHA3-384"},
	{string(common.SHA3_512), "SHA3-512"}, {string(spdx.SHA3_512), "SHA3-512"},
	{string(common.BLAKE2b_256), "BLAKE2b-256"}, {string(spdx.BLAKE2b_256), "BLAKE2b-256"},
	{string(common.BLAKE2b_384), "BLAKE2b-384"}, {string(spdx.BLAKE2b_384), "BLAKE2b-384"},
	{string(common.BLAKE2b_512), "BLAKE2b-512"}, {string(spdx.BLAKE2b_512), "BLAKE2b-512"},
	{string(common.BLAKE3), "BLAKE3"}, {string(spdx.BLAKE3), "BLAKE3"},
	{string(common.ADLER32), "ADLER32"}, {string(spdx.ADLER32), "ADLER32"},
	{v2_1.Version, "SPDX-2.1"}, {v2_2.Version, "SPDX-2.2"}, {v2_3.Version, "SPDX-2.3"}, {spdx.Version, "SPDX-2.3"},
	{v2_1.DataLicense, "CC0-1.0"}, {v2_2.DataLicense, "CC0-1.0"}, {v2_3.DataLicense, "CC0-1.0"}, {spdx.DataLicense, "CC0-1.0"},
	{spdx.CategorySecurity, "SECURITY"},
	{spdx.SecurityCPE23Type, "cpe23Type"},
	{spdx.SecurityCPE22Type, "cpe22Type"},
	{spdx.SecurityAdvisory, "advisory"},
	{spdx.SecurityFix, "fix"},
	{spdx.SecurityUrl, "url"},
	{spdx.SecuritySwid, "swid"},
	{spdx.CategoryPackageManager, "PACKAGE-MANAGER"},
	{spdx.PackageManagerMavenCentral, "maven-central"},
	{spdx.PackageManagerNpm, "npm"},
	{spdx.PackageManagerNuGet, "nuget"},
	{spdx.PackageManagerBower, "bower"},
	{spdx.PackageManagerPURL, "purl"},
	{spdx.CategoryPersistentId, "PERSISTENT-ID"},
	{spdx.TypePersistentIdSwh, "swh"},
	{spdx.TypePersistentIdGitoid, "gitoid"},
	{spdx.CategoryOther, "OTHER"},
	{spdx.RelationshipDescribes, "DESCRIBES"},
	{spdx.RelationshipDescribedBy, "DESCRIBED_BY"},
	{spdx.RelationshipContains, "CONTAINS"},
	{spdx.RelationshipContainedBy, "CONTAINED_BY"},
	{spdx.RelationshipDependsOn, "DEPENDS_ON"},
	{spdx.RelationshipDependencyOf, "DEPENDENCY_OF"},
	{spdx.RelationshipBuildDependencyOf, "BUILD_DEPENDENCY_OF"},
	{spdx.RelationshipDevDependencyOf, "DEV_DEPENDENCY_OF"},
	{spdx.RelationshipOptionalDependencyOf, "OPTIONAL_DEPENDENCY_OF"},
	{spdx.RelationshipProvidedDependencyOf, "PROVIDED_DEPENDENCY_OF"},
	{spdx.RelationshipTestDependencyOf, "TEST_DEPENDENCY_OF"},
	{spdx.RelationshipRuntimeDependencyOf, "RUNTIME_DEPENDENCY_OF"},
	{spdx.RelationshipExampleOf, "EXAMPLE_OF"},
	{spdx.RelationshipGenerates, "GENERATES"},
	{spdx.RelationshipGeneratedFrom, "GENERATED_FROM"},
	{spdx.RelationshipAncestorOf, "ANCESTOR_OF"},
	{spdx.RelationshipDescendantOf, "DESCENDANT_OF"},
	{spdx.RelationshipVariantOf, "VARIANT_OF"},
	{spdx.RelationshipDistributionArtifact, "DISTRIBUTION_ARTIFACT"},
	{spdx.RelationshipPatchFor, "PATCH_FOR"},
	{spdx.RelationshipPatchApplied, "PATCH_APPLIED"},
	{spdx.RelationshipCopyOf, "COPY_OF"},
	{spdx.RelationshipFileAdded, "FILE_ADDED"},
	{spdx.RelationshipFileDeleted, "FILE_DELETED"},
	{spdx.RelationshipFileModified, "FILE_MODIFIED"},
	{spdx.RelationshipExpandedFromArchive, "EXPANDED_FROM_ARCHIVE"},
	{spdx.RelationshipDynamicLink, "DYNAMIC_LINK"},
	{spdx.RelationshipStaticLink, "STATIC_LINK"},
	{spdx.RelationshipDataFileOf, "DATA_FILE_OF"},
	{spdx.RelationshipTestCaseOf, "TEST_CASE_OF"},
	{spdx.RelationshipBuildToolOf, "BUILD_TOOL_OF"},
	{spdx.RelationshipDevToolOf, "DEV_TOOL_OF"},
	{spdx.RelationshipTestOf, "TEST_OF"},
	{spdx.RelationshipTestToolOf, "TEST_TOOL_OF"},
	{spdx.RelationshipDocumentationOf, "DOCUMENTATION_OF"},
	{spdx.RelationshipOptionalComponentOf, "OPTIONAL_COMPONENT_OF"},
	{spdx.RelationshipMetafileOf, "METAFILE_OF"},
	{spdx.RelationshipPackageOf, "PACKAGE_OF"},
	{spdx.RelationshipAmends, "AMENDS"},
	{spdx.RelationshipPrerequisiteFor, "PREREQUISITE_FOR"},
	{spdx.RelationshipHasPrerequisite, "HAS_PREREQUISITE"},
	{spdx.RelationshipRequirementDescriptionFor, "REQUIREMENT_DESCRIPTION_FOR"},
	{spdx.RelationshipSpecificationFor, "SPECIFICATION_FOR"},
	{spdx.RelationshipOther, "OTHER"},
}
