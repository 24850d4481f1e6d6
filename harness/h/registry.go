package h

// All lists the harness functions for native replay.
var All = map[string]func(){
	"AlignIdempotent":    AlignIdempotent,
	"AlignLong":          AlignLong,
	"AlignMixed":         AlignMixed,
	"AlignRope":          AlignRope,
	"AlignRow":           AlignRow,
	"AlignRowReal":       AlignRowReal,
	"AlignText":          AlignText,
	"BigFormat":          BigFormat,
	"BigHeader":          BigHeader,
	"BigHistory":         BigHistory,
	"BigNames":           BigNames,
	"BigRow":             BigRow,
	"BigSpec":            BigSpec,
	"Boundaries":         Boundaries,
	"Carried":            Carried,
	"CellWidth":          CellWidth,
	"CellWidthAfter":     CellWidthAfter,
	"CellWidthVS":        CellWidthVS,
	"ClusterWidth":       ClusterWidth,
	"ColumnMax":          ColumnMax,
	"ColumnMaxText":      ColumnMaxText,
	"CondIndep":          CondIndep,
	"EscapeMany":         EscapeMany,
	"EscapeOne":          EscapeOne,
	"EscapeTwo":          EscapeTwo,
	"FormatItem":         FormatItem,
	"FormatItemBasic":    FormatItemBasic,
	"Header":             Header,
	"HeaderLong":         HeaderLong,
	"IterIndep":          IterIndep,
	"Locale":             Locale,
	"LocaleAgain":        LocaleAgain,
	"LocaleOrder":        LocaleOrder,
	"LocaleParts":        LocaleParts,
	"MergeEnds":          MergeEnds,
	"MergeExact":         MergeExact,
	"MergeFault":         MergeFault,
	"MergeFill":          MergeFill,
	"MergeLayout":        MergeLayout,
	"MergeLineUp":        MergeLineUp,
	"MergeMaxWidth":      MergeMaxWidth,
	"MergeNil":           MergeNil,
	"MergeReal":          MergeReal,
	"Partition":          Partition,
	"PureMerge":          PureMerge,
	"PureRows":           PureRows,
	"PureWidths":         PureWidths,
	"Race":               Race,
	"RuneWidth":          RuneWidth,
	"RuneWidthGlobal":    RuneWidthGlobal,
	"RuneWidthLUT":       RuneWidthLUT,
	"SpecColumns":        SpecColumns,
	"StartLocale":        StartLocale,
	"StartVar":           StartVar,
	"StepBoundaries":     StepBoundaries,
	"StepPartition":      StepPartition,
	"StringWidthDefault": StringWidthDefault,
	"StringWidthLong":    StringWidthLong,
	"StringWidthSelf":    StringWidthSelf,
	"StringWidthSum":     StringWidthSum,
	"TableWidthSum":      TableWidthSum,
	"WidthAlike":         WidthAlike,
	"WidthBytes":         WidthBytes,
	"WidthEquals":        WidthEquals,
	"WidthLong":          WidthLong,
	"WidthMany":          WidthMany,
	"WidthRepeat":        WidthRepeat,
	"WidthStable":        WidthStable,
}
