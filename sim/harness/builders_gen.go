//go:build go1.23

package main

// written by tools/mkbuilders.py

import (
	p_applications_parsers "github.com/steve-care-software/steve/applications/languages/parsers"
	p_chains "github.com/steve-care-software/steve/domain/chains"
	p_cryptography "github.com/steve-care-software/steve/domain/cryptography"
	p_cryptography_keys_encryption "github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	p_genesis "github.com/steve-care-software/steve/domain/genesis"
	p_genesis_privates "github.com/steve-care-software/steve/domain/genesis/privates"
	p_hashtree "github.com/steve-care-software/steve/domain/hashtree"
	p_identities "github.com/steve-care-software/steve/domain/identities"
	p_lexers_asts "github.com/steve-care-software/steve/domain/languages/lexers/asts"
	p_lexers_asts_mistakes "github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	p_lexers_asts_paths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	p_lexers_asts_results "github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	p_lexers_asts_tokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	p_lexers_cardinality "github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	p_lexers_containers_patterns "github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	p_lexers_containers_rules "github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	p_lexers_containers_tokens "github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	p_lexers_contents "github.com/steve-care-software/steve/domain/languages/lexers/contents"
	p_lexers_paths "github.com/steve-care-software/steve/domain/languages/lexers/paths"
	p_lexers_references "github.com/steve-care-software/steve/domain/languages/lexers/references"
	p_lexers_references_links "github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	p_lexers_resources_containers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	p_lexers_resources_multiples "github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	p_lexers_resources_paths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	p_lexers_resources_singles "github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	p_lexers_roots "github.com/steve-care-software/steve/domain/languages/lexers/roots"
	p_lexers_suites "github.com/steve-care-software/steve/domain/languages/lexers/suites"
	p_scripts_base_parsers "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	p_peers "github.com/steve-care-software/steve/domain/peers"
	p_receipts "github.com/steve-care-software/steve/domain/receipts"
	p_rings "github.com/steve-care-software/steve/domain/rings"
	p_transactions "github.com/steve-care-software/steve/domain/transactions"
	p_transactions_privates "github.com/steve-care-software/steve/domain/transactions/privates"
	p_transactions_secrets "github.com/steve-care-software/steve/domain/transactions/secrets"
)

var builderCtors = []builderCtor{
	mkBuilder("applications/languages/parsers.ManagerBuilder", p_applications_parsers.NewManagerBuilder),
	mkBuilder("applications/languages/parsers.ResultBuilder", p_applications_parsers.NewResultBuilder),
	mkBuilder("chains.BlockBuilder", p_chains.NewBlockBuilder),
	mkBuilder("chains.Builder", p_chains.NewBuilder),
	mkBuilder("cryptography.Builder", p_cryptography.NewBuilder),
	mkBuilder("cryptography/keys/encryption.Builder", p_cryptography_keys_encryption.NewBuilder),
	mkBuilder("cryptography/keys/encryption.PublicKeyBuilder", p_cryptography_keys_encryption.NewPublicKeyBuilder),
	mkBuilder("genesis.Builder", p_genesis.NewBuilder),
	mkBuilder("genesis.UnitBuilder", p_genesis.NewUnitBuilder),
	mkBuilder("genesis.UnitContentBuilder", p_genesis.NewUnitContentBuilder),
	mkBuilder("genesis/privates.Builder", p_genesis_privates.NewBuilder),
	mkBuilder("genesis/privates.PrivateBuilder", p_genesis_privates.NewPrivateBuilder),
	mkBuilder("hashtree.Builder", p_hashtree.NewBuilder),
	mkBuilder("identities.Builder", p_identities.NewBuilder),
	mkBuilder("identities.TransactionsBuilder", p_identities.NewTransactionsBuilder),
	mkBuilder("languages/lexers/asts.Builder", p_lexers_asts.NewBuilder),
	mkBuilder("languages/lexers/asts.LineMatchBuilder", p_lexers_asts.NewLineMatchBuilder),
	mkBuilder("languages/lexers/asts.MatchBuilder", p_lexers_asts.NewMatchBuilder),
	mkBuilder("languages/lexers/asts.ResultBuilder", p_lexers_asts.NewResultBuilder),
	mkBuilder("languages/lexers/asts.RuleMatchBuilder", p_lexers_asts.NewRuleMatchBuilder),
	mkBuilder("languages/lexers/asts.TokenBuilder", p_lexers_asts.NewTokenBuilder),
	mkBuilder("languages/lexers/asts.TokenMatchBuilder", p_lexers_asts.NewTokenMatchBuilder),
	mkBuilder("languages/lexers/asts/mistakes.Builder", p_lexers_asts_mistakes.NewBuilder),
	mkBuilder("languages/lexers/asts/mistakes.CardinalityIsInvalidBuilder", p_lexers_asts_mistakes.NewCardinalityIsInvalidBuilder),
	mkBuilder("languages/lexers/asts/mistakes.ContainsNextElementBuilder", p_lexers_asts_mistakes.NewContainsNextElementBuilder),
	mkBuilder("languages/lexers/asts/mistakes.ContainsPrefixBuilder", p_lexers_asts_mistakes.NewContainsPrefixBuilder),
	mkBuilder("languages/lexers/asts/mistakes.ContainsValidNotMatchBuilder", p_lexers_asts_mistakes.NewContainsValidNotMatchBuilder),
	mkBuilder("languages/lexers/asts/mistakes.ContentBuilder", p_lexers_asts_mistakes.NewContentBuilder),
	mkBuilder("languages/lexers/asts/mistakes.IndexBuilder", p_lexers_asts_mistakes.NewIndexBuilder),
	mkBuilder("languages/lexers/asts/mistakes.PathBuilder", p_lexers_asts_mistakes.NewPathBuilder),
	mkBuilder("languages/lexers/asts/mistakes.SpecifierDoNotMatchBuilder", p_lexers_asts_mistakes.NewSpecifierDoNotMatchBuilder),
	mkBuilder("languages/lexers/asts/paths.Builder", p_lexers_asts_paths.NewBuilder),
	mkBuilder("languages/lexers/asts/paths.ContainerBuilder", p_lexers_asts_paths.NewContainerBuilder),
	mkBuilder("languages/lexers/asts/paths.DependenciesBuilder", p_lexers_asts_paths.NewDependenciesBuilder),
	mkBuilder("languages/lexers/asts/paths.ElementBuilder", p_lexers_asts_paths.NewElementBuilder),
	mkBuilder("languages/lexers/asts/paths.InstructionBuilder", p_lexers_asts_paths.NewInstructionBuilder),
	mkBuilder("languages/lexers/asts/paths.LineBuilder", p_lexers_asts_paths.NewLineBuilder),
	mkBuilder("languages/lexers/asts/paths.RecursiveTokenBuilder", p_lexers_asts_paths.NewRecursiveTokenBuilder),
	mkBuilder("languages/lexers/asts/paths.RuleBuilder", p_lexers_asts_paths.NewRuleBuilder),
	mkBuilder("languages/lexers/asts/paths.SpecifierBuilder", p_lexers_asts_paths.NewSpecifierBuilder),
	mkBuilder("languages/lexers/asts/paths.TokenBuilder", p_lexers_asts_paths.NewTokenBuilder),
	mkBuilder("languages/lexers/asts/paths.TokenPathBuilder", p_lexers_asts_paths.NewTokenPathBuilder),
	mkBuilder("languages/lexers/asts/results.Builder", p_lexers_asts_results.NewBuilder),
	mkBuilder("languages/lexers/asts/tokens.BlockMatchBuilder", p_lexers_asts_tokens.NewBlockMatchBuilder),
	mkBuilder("languages/lexers/asts/tokens.Builder", p_lexers_asts_tokens.NewBuilder),
	mkBuilder("languages/lexers/asts/tokens.LineMatchBuilder", p_lexers_asts_tokens.NewLineMatchBuilder),
	mkBuilder("languages/lexers/asts/tokens.MatchBuilder", p_lexers_asts_tokens.NewMatchBuilder),
	mkBuilder("languages/lexers/asts/tokens.MatchesBuilder", p_lexers_asts_tokens.NewMatchesBuilder),
	mkBuilder("languages/lexers/asts/tokens.NextElementBuilder", p_lexers_asts_tokens.NewNextElementBuilder),
	mkBuilder("languages/lexers/asts/tokens.ResultBuilder", p_lexers_asts_tokens.NewResultBuilder),
	mkBuilder("languages/lexers/asts/tokens.RuleMatchBuilder", p_lexers_asts_tokens.NewRuleMatchBuilder),
	mkBuilder("languages/lexers/asts/tokens.RuleMatchResultBuilder", p_lexers_asts_tokens.NewRuleMatchResultBuilder),
	mkBuilder("languages/lexers/asts/tokens.SkipMatchBuilder", p_lexers_asts_tokens.NewSkipMatchBuilder),
	mkBuilder("languages/lexers/asts/tokens.SpecifierBuilder", p_lexers_asts_tokens.NewSpecifierBuilder),
	mkBuilder("languages/lexers/asts/tokens.TokenContentBuilder", p_lexers_asts_tokens.NewTokenContentBuilder),
	mkBuilder("languages/lexers/asts/tokens.TokenMatchBuilder", p_lexers_asts_tokens.NewTokenMatchBuilder),
	mkBuilder("languages/lexers/asts/tokens.TokenResultBuilder", p_lexers_asts_tokens.NewTokenResultBuilder),
	mkBuilder("languages/lexers/asts/tokens.TokenResultMatchesBuilder", p_lexers_asts_tokens.NewTokenResultMatchesBuilder),
	mkBuilder("languages/lexers/cardinality.Builder", p_lexers_cardinality.NewBuilder),
	mkBuilder("languages/lexers/cardinality.RangeBuilder", p_lexers_cardinality.NewRangeBuilder),
	mkBuilder("languages/lexers/cardinality.SpecificBuilder", p_lexers_cardinality.NewSpecificBuilder),
	mkBuilder("languages/lexers/containers/patterns.Builder", p_lexers_containers_patterns.NewBuilder),
	mkBuilder("languages/lexers/containers/patterns.ChoiceBuilder", p_lexers_containers_patterns.NewChoiceBuilder),
	mkBuilder("languages/lexers/containers/patterns.ContainerBuilder", p_lexers_containers_patterns.NewContainerBuilder),
	mkBuilder("languages/lexers/containers/patterns.DiscoveriesBuilder", p_lexers_containers_patterns.NewDiscoveriesBuilder),
	mkBuilder("languages/lexers/containers/patterns.DiscoveryBuilder", p_lexers_containers_patterns.NewDiscoveryBuilder),
	mkBuilder("languages/lexers/containers/patterns.GroupBuilder", p_lexers_containers_patterns.NewGroupBuilder),
	mkBuilder("languages/lexers/containers/patterns.GroupsBuilder", p_lexers_containers_patterns.NewGroupsBuilder),
	mkBuilder("languages/lexers/containers/patterns.NextBuilder", p_lexers_containers_patterns.NewNextBuilder),
	mkBuilder("languages/lexers/containers/patterns.PatternBuilder", p_lexers_containers_patterns.NewPatternBuilder),
	mkBuilder("languages/lexers/containers/patterns.ResultBuilder", p_lexers_containers_patterns.NewResultBuilder),
	mkBuilder("languages/lexers/containers/patterns.SerieBuilder", p_lexers_containers_patterns.NewSerieBuilder),
	mkBuilder("languages/lexers/containers/rules.Builder", p_lexers_containers_rules.NewBuilder),
	mkBuilder("languages/lexers/containers/rules.ContentBuilder", p_lexers_containers_rules.NewContentBuilder),
	mkBuilder("languages/lexers/containers/rules.ElementBuilder", p_lexers_containers_rules.NewElementBuilder),
	mkBuilder("languages/lexers/containers/rules.PatternBuilder", p_lexers_containers_rules.NewPatternBuilder),
	mkBuilder("languages/lexers/containers/rules.RuleBuilder", p_lexers_containers_rules.NewRuleBuilder),
	mkBuilder("languages/lexers/containers/tokens.BlockBuilder", p_lexers_containers_tokens.NewBlockBuilder),
	mkBuilder("languages/lexers/containers/tokens.Builder", p_lexers_containers_tokens.NewBuilder),
	mkBuilder("languages/lexers/containers/tokens.ContentBuilder", p_lexers_containers_tokens.NewContentBuilder),
	mkBuilder("languages/lexers/containers/tokens.ElementBuilder", p_lexers_containers_tokens.NewElementBuilder),
	mkBuilder("languages/lexers/containers/tokens.InstructionBuilder", p_lexers_containers_tokens.NewInstructionBuilder),
	mkBuilder("languages/lexers/containers/tokens.LineBuilder", p_lexers_containers_tokens.NewLineBuilder),
	mkBuilder("languages/lexers/containers/tokens.LinesBuilder", p_lexers_containers_tokens.NewLinesBuilder),
	mkBuilder("languages/lexers/containers/tokens.TestSuiteBuilder", p_lexers_containers_tokens.NewTestSuiteBuilder),
	mkBuilder("languages/lexers/containers/tokens.TokenBuilder", p_lexers_containers_tokens.NewTokenBuilder),
	mkBuilder("languages/lexers/containers/tokens.TokenReferenceBuilder", p_lexers_containers_tokens.NewTokenReferenceBuilder),
	mkBuilder("languages/lexers/containers/tokens.TokenSpecifierBuilder", p_lexers_containers_tokens.NewTokenSpecifierBuilder),
	mkBuilder("languages/lexers/containers/tokens.TokenSpecifierContentBuilder", p_lexers_containers_tokens.NewTokenSpecifierContentBuilder),
	mkBuilder("languages/lexers/containers/tokens.TokenSpecifiersBuilder", p_lexers_containers_tokens.NewTokenSpecifiersBuilder),
	mkBuilder("languages/lexers/contents.Builder", p_lexers_contents.NewBuilder),
	mkBuilder("languages/lexers/paths.Builder", p_lexers_paths.NewBuilder),
	mkBuilder("languages/lexers/references.Builder", p_lexers_references.NewBuilder),
	mkBuilder("languages/lexers/references/links.Builder", p_lexers_references_links.NewBuilder),
	mkBuilder("languages/lexers/references/links.IncludeBuilder", p_lexers_references_links.NewIncludeBuilder),
	mkBuilder("languages/lexers/references/links.LinkBuilder", p_lexers_references_links.NewLinkBuilder),
	mkBuilder("languages/lexers/resources/containers.Builder", p_lexers_resources_containers.NewBuilder),
	mkBuilder("languages/lexers/resources/multiples.Builder", p_lexers_resources_multiples.NewBuilder),
	mkBuilder("languages/lexers/resources/paths.Builder", p_lexers_resources_paths.NewBuilder),
	mkBuilder("languages/lexers/resources/singles.Builder", p_lexers_resources_singles.NewBuilder),
	mkBuilder("languages/lexers/roots.Builder", p_lexers_roots.NewBuilder),
	mkBuilder("languages/lexers/roots.ContainerBuilder", p_lexers_roots.NewContainerBuilder),
	mkBuilder("languages/lexers/roots.ContainersBuilder", p_lexers_roots.NewContainersBuilder),
	mkBuilder("languages/lexers/roots.NodeBuilder", p_lexers_roots.NewNodeBuilder),
	mkBuilder("languages/lexers/roots.NodesBuilder", p_lexers_roots.NewNodesBuilder),
	mkBuilder("languages/lexers/suites.Builder", p_lexers_suites.NewBuilder),
	mkBuilder("languages/lexers/suites.LineBuilder", p_lexers_suites.NewLineBuilder),
	mkBuilder("languages/scripts/base/parsers.AppendBuilder", p_scripts_base_parsers.NewAppendBuilder),
	mkBuilder("languages/scripts/base/parsers.AssignableBuilder", p_scripts_base_parsers.NewAssignableBuilder),
	mkBuilder("languages/scripts/base/parsers.AssignablesBuilder", p_scripts_base_parsers.NewAssignablesBuilder),
	mkBuilder("languages/scripts/base/parsers.AssigneeBuilder", p_scripts_base_parsers.NewAssigneeBuilder),
	mkBuilder("languages/scripts/base/parsers.AssigneeNameBuilder", p_scripts_base_parsers.NewAssigneeNameBuilder),
	mkBuilder("languages/scripts/base/parsers.AssigneeNameFirstBuilder", p_scripts_base_parsers.NewAssigneeNameFirstBuilder),
	mkBuilder("languages/scripts/base/parsers.AssigneeNameFirstsBuilder", p_scripts_base_parsers.NewAssigneeNameFirstsBuilder),
	mkBuilder("languages/scripts/base/parsers.AssigneeNamesBuilder", p_scripts_base_parsers.NewAssigneeNamesBuilder),
	mkBuilder("languages/scripts/base/parsers.AssignmentBuilder", p_scripts_base_parsers.NewAssignmentBuilder),
	mkBuilder("languages/scripts/base/parsers.DirectionBuilder", p_scripts_base_parsers.NewDirectionBuilder),
	mkBuilder("languages/scripts/base/parsers.ForDeclarationBuilder", p_scripts_base_parsers.NewForDeclarationBuilder),
	mkBuilder("languages/scripts/base/parsers.ForStatementBuilder", p_scripts_base_parsers.NewForStatementBuilder),
	mkBuilder("languages/scripts/base/parsers.HeaderVariableBuilder", p_scripts_base_parsers.NewHeaderVariableBuilder),
	mkBuilder("languages/scripts/base/parsers.HeaderVariablesBuilder", p_scripts_base_parsers.NewHeaderVariablesBuilder),
	mkBuilder("languages/scripts/base/parsers.IfDeclarationBuilder", p_scripts_base_parsers.NewIfDeclarationBuilder),
	mkBuilder("languages/scripts/base/parsers.IndexValueBuilder", p_scripts_base_parsers.NewIndexValueBuilder),
	mkBuilder("languages/scripts/base/parsers.InstructionBuilder", p_scripts_base_parsers.NewInstructionBuilder),
	mkBuilder("languages/scripts/base/parsers.InstructionsBuilder", p_scripts_base_parsers.NewInstructionsBuilder),
	mkBuilder("languages/scripts/base/parsers.IntIncrementBuilder", p_scripts_base_parsers.NewIntIncrementBuilder),
	mkBuilder("languages/scripts/base/parsers.ListFetchElementBuilder", p_scripts_base_parsers.NewListFetchElementBuilder),
	mkBuilder("languages/scripts/base/parsers.ListValueBuilder", p_scripts_base_parsers.NewListValueBuilder),
	mkBuilder("languages/scripts/base/parsers.OperationBuilder", p_scripts_base_parsers.NewOperationBuilder),
	mkBuilder("languages/scripts/base/parsers.OperationElementBuilder", p_scripts_base_parsers.NewOperatonElementBuilder),
	mkBuilder("languages/scripts/base/parsers.OperationFuncCallBuilder", p_scripts_base_parsers.NewOperationFuncCallBuilder),
	mkBuilder("languages/scripts/base/parsers.OperationSuffixBuilder", p_scripts_base_parsers.NewOperationSuffixBuilder),
	mkBuilder("languages/scripts/base/parsers.ProgramBuilder", p_scripts_base_parsers.NewProgramBuilder),
	mkBuilder("languages/scripts/base/parsers.SingleAssignableBuilder", p_scripts_base_parsers.NewSingleAssignableBuilder),
	mkBuilder("languages/scripts/base/parsers.SliceBuilder", p_scripts_base_parsers.NewSliceBuilder),
	mkBuilder("languages/scripts/base/parsers.SliceDelimiterBuilder", p_scripts_base_parsers.NewSliceDelimiterBuilder),
	mkBuilder("languages/scripts/base/parsers.TotalListAssignableBuilder", p_scripts_base_parsers.NewTotalListAssignableBuilder),
	mkBuilder("languages/scripts/base/parsers.TotalListValueBuilder", p_scripts_base_parsers.NewTotalListValueBuilder),
	mkBuilder("languages/scripts/base/parsers.TypeBuilder", p_scripts_base_parsers.NewTypeBuilder),
	mkBuilder("languages/scripts/base/parsers.ValueBuilder", p_scripts_base_parsers.NewValueBuilder),
	mkBuilder("languages/scripts/base/parsers.VariableDeclarationBuilder", p_scripts_base_parsers.NewVariableDeclarationBuilder),
	mkBuilder("languages/scripts/base/parsers.VariableDeclarationsBuilder", p_scripts_base_parsers.NewVariableDeclarationsBuilder),
	mkBuilder("languages/scripts/base/parsers.VoidFuncCallBuilder", p_scripts_base_parsers.NewVoidFuncCallBuilder),
	mkBuilder("peers.Builder", p_peers.NewBuilder),
	mkBuilder("receipts.Builder", p_receipts.NewBuilder),
	mkBuilder("rings.Builder", p_rings.NewBuilder),
	mkBuilder("transactions.Builder", p_transactions.NewBuilder),
	mkBuilder("transactions.ContentBuilder", p_transactions.NewContentBuilder),
	mkBuilder("transactions.OriginBuilder", p_transactions.NewOriginBuilder),
	mkBuilder("transactions.TransactionBuilder", p_transactions.NewTransactionBuilder),
	mkBuilder("transactions/privates.Builder", p_transactions_privates.NewBuilder),
	mkBuilder("transactions/privates.PrivateBuilder", p_transactions_privates.NewPrivateBuilder),
	mkBuilder("transactions/secrets.Builder", p_transactions_secrets.NewBuilder),
	mkBuilder("transactions/secrets.SecretBuilder", p_transactions_secrets.NewSecretBuilder),
}
