// generated: weak definitions for every Postgres symbol the bindings know, so that the runner links; calling one aborts
core::arch::global_asm!(r#"
.section .text.pgstubs,"ax",@progbits
.weak ATExecChangeOwner
ATExecChangeOwner:
.weak AbortBufferIO
AbortBufferIO:
.weak AbortCurrentTransaction
AbortCurrentTransaction:
.weak AbortOutOfAnyTransaction
AbortOutOfAnyTransaction:
.weak AbortStrongLockAcquire
AbortStrongLockAcquire:
.weak AcceptInvalidationMessages
AcceptInvalidationMessages:
.weak AcquireDeletionLock
AcquireDeletionLock:
.weak AcquireExternalFD
AcquireExternalFD:
.weak AcquireRewriteLocks
AcquireRewriteLocks:
.weak ActiveSnapshotSet
ActiveSnapshotSet:
.weak AddEnumLabel
AddEnumLabel:
.weak AddInvertedQual
AddInvertedQual:
.weak AddQual
AddQual:
.weak AddRelationNewConstraints
AddRelationNewConstraints:
.weak AddToDataDirLockFile
AddToDataDirLockFile:
.weak AddWaitEventToSet
AddWaitEventToSet:
.weak AdjustTimeForTypmod
AdjustTimeForTypmod:
.weak AdjustTimestampForTypmod
AdjustTimestampForTypmod:
.weak AdvanceNextFullTransactionIdPastXid
AdvanceNextFullTransactionIdPastXid:
.weak AdvanceOldestClogXid
AdvanceOldestClogXid:
.weak AdvanceOldestCommitTsXid
AdvanceOldestCommitTsXid:
.weak AfterTriggerBeginQuery
AfterTriggerBeginQuery:
.weak AfterTriggerBeginSubXact
AfterTriggerBeginSubXact:
.weak AfterTriggerBeginXact
AfterTriggerBeginXact:
.weak AfterTriggerEndQuery
AfterTriggerEndQuery:
.weak AfterTriggerEndSubXact
AfterTriggerEndSubXact:
.weak AfterTriggerEndXact
AfterTriggerEndXact:
.weak AfterTriggerFireDeferred
AfterTriggerFireDeferred:
.weak AfterTriggerPendingOnRel
AfterTriggerPendingOnRel:
.weak AfterTriggerSetState
AfterTriggerSetState:
.weak AggCheckCallContext
AggCheckCallContext:
.weak AggGetAggref
AggGetAggref:
.weak AggGetTempMemoryContext
AggGetTempMemoryContext:
.weak AggRegisterCallback
AggRegisterCallback:
.weak AggStateIsShared
AggStateIsShared:
.weak AllocSetContextCreateInternal
AllocSetContextCreateInternal:
.weak AllocateDir
AllocateDir:
.weak AllocateFile
AllocateFile:
.weak AlterDatabase
AlterDatabase:
.weak AlterDatabaseOwner
AlterDatabaseOwner:
.weak AlterDatabaseRefreshColl
AlterDatabaseRefreshColl:
.weak AlterDatabaseSet
AlterDatabaseSet:
.weak AlterEventTrigger
AlterEventTrigger:
.weak AlterEventTriggerOwner
AlterEventTriggerOwner:
.weak AlterEventTriggerOwner_oid
AlterEventTriggerOwner_oid:
.weak AlterExtensionNamespace
AlterExtensionNamespace:
.weak AlterForeignDataWrapper
AlterForeignDataWrapper:
.weak AlterForeignDataWrapperOwner
AlterForeignDataWrapperOwner:
.weak AlterForeignDataWrapperOwner_oid
AlterForeignDataWrapperOwner_oid:
.weak AlterForeignServer
AlterForeignServer:
.weak AlterForeignServerOwner
AlterForeignServerOwner:
.weak AlterForeignServerOwner_oid
AlterForeignServerOwner_oid:
.weak AlterFunction
AlterFunction:
.weak AlterOpFamily
AlterOpFamily:
.weak AlterOperator
AlterOperator:
.weak AlterPublication
AlterPublication:
.weak AlterPublicationOwner
AlterPublicationOwner:
.weak AlterPublicationOwner_oid
AlterPublicationOwner_oid:
.weak AlterRelationNamespaceInternal
AlterRelationNamespaceInternal:
.weak AlterRole
AlterRole:
.weak AlterRoleSet
AlterRoleSet:
.weak AlterStatistics
AlterStatistics:
.weak AlterSystemSetConfigFile
AlterSystemSetConfigFile:
.weak AlterTSConfiguration
AlterTSConfiguration:
.weak AlterTSDictionary
AlterTSDictionary:
.weak AlterTable
AlterTable:
.weak AlterTableGetLockLevel
AlterTableGetLockLevel:
.weak AlterTableGetRelOptionsLockLevel
AlterTableGetRelOptionsLockLevel:
.weak AlterTableInternal
AlterTableInternal:
.weak AlterTableLookupRelation
AlterTableLookupRelation:
.weak AlterTableMoveAll
AlterTableMoveAll:
.weak AlterTableNamespace
AlterTableNamespace:
.weak AlterTableNamespaceInternal
AlterTableNamespaceInternal:
.weak AlterTableSpaceOptions
AlterTableSpaceOptions:
.weak AlterUserMapping
AlterUserMapping:
.weak ApplyInt32SortComparator
ApplyInt32SortComparator:
.weak ApplySignedSortComparator
ApplySignedSortComparator:
.weak ApplySortAbbrevFullComparator
ApplySortAbbrevFullComparator:
.weak ApplySortComparator
ApplySortComparator:
.weak ApplyUnsignedSortComparator
ApplyUnsignedSortComparator:
.weak ApplyWorkerMain
ApplyWorkerMain:
.weak ArrayCheckBounds
ArrayCheckBounds:
.weak ArrayCheckBoundsSafe
ArrayCheckBoundsSafe:
.weak ArrayGetIntegerTypmods
ArrayGetIntegerTypmods:
.weak ArrayGetNItems
ArrayGetNItems:
.weak ArrayGetNItemsSafe
ArrayGetNItemsSafe:
.weak ArrayGetOffset
ArrayGetOffset:
.weak ArrayGetOffset0
ArrayGetOffset0:
.weak AssertCouldGetRelation
AssertCouldGetRelation:
.weak AtAbort_Portals
AtAbort_Portals:
.weak AtCleanup_Portals
AtCleanup_Portals:
.weak AtEOSubXact_Files
AtEOSubXact_Files:
.weak AtEOSubXact_HashTables
AtEOSubXact_HashTables:
.weak AtEOSubXact_Inval
AtEOSubXact_Inval:
.weak AtEOSubXact_Namespace
AtEOSubXact_Namespace:
.weak AtEOSubXact_Parallel
AtEOSubXact_Parallel:
.weak AtEOSubXact_PgStat
AtEOSubXact_PgStat:
.weak AtEOSubXact_RelationCache
AtEOSubXact_RelationCache:
.weak AtEOSubXact_SPI
AtEOSubXact_SPI:
.weak AtEOSubXact_on_commit_actions
AtEOSubXact_on_commit_actions:
.weak AtEOXact_Buffers
AtEOXact_Buffers:
.weak AtEOXact_Enum
AtEOXact_Enum:
.weak AtEOXact_Files
AtEOXact_Files:
.weak AtEOXact_GUC
AtEOXact_GUC:
.weak AtEOXact_HashTables
AtEOXact_HashTables:
.weak AtEOXact_Inval
AtEOXact_Inval:
.weak AtEOXact_LocalBuffers
AtEOXact_LocalBuffers:
.weak AtEOXact_LogicalRepWorkers
AtEOXact_LogicalRepWorkers:
.weak AtEOXact_MultiXact
AtEOXact_MultiXact:
.weak AtEOXact_Namespace
AtEOXact_Namespace:
.weak AtEOXact_Parallel
AtEOXact_Parallel:
.weak AtEOXact_PgStat
AtEOXact_PgStat:
.weak AtEOXact_RelationCache
AtEOXact_RelationCache:
.weak AtEOXact_SMgr
AtEOXact_SMgr:
.weak AtEOXact_SPI
AtEOXact_SPI:
.weak AtEOXact_Snapshot
AtEOXact_Snapshot:
.weak AtEOXact_on_commit_actions
AtEOXact_on_commit_actions:
.weak AtInplace_Inval
AtInplace_Inval:
.weak AtPrepare_Locks
AtPrepare_Locks:
.weak AtPrepare_MultiXact
AtPrepare_MultiXact:
.weak AtPrepare_PgStat
AtPrepare_PgStat:
.weak AtProcExit_LocalBuffers
AtProcExit_LocalBuffers:
.weak AtStart_GUC
AtStart_GUC:
.weak AtSubAbort_Portals
AtSubAbort_Portals:
.weak AtSubAbort_Snapshot
AtSubAbort_Snapshot:
.weak AtSubAbort_smgr
AtSubAbort_smgr:
.weak AtSubCleanup_Portals
AtSubCleanup_Portals:
.weak AtSubCommit_Portals
AtSubCommit_Portals:
.weak AtSubCommit_Snapshot
AtSubCommit_Snapshot:
.weak AtSubCommit_smgr
AtSubCommit_smgr:
.weak AutoVacuumUpdateCostLimit
AutoVacuumUpdateCostLimit:
.weak AuxiliaryPidGetProc
AuxiliaryPidGetProc:
.weak BIG5toCNS
BIG5toCNS:
.weak BackendPidGetProc
BackendPidGetProc:
.weak BackendPidGetProcWithLock
BackendPidGetProcWithLock:
.weak BackendStatusShmemSize
BackendStatusShmemSize:
.weak BackendXidGetPid
BackendXidGetPid:
.weak BackgroundWorkerBlockSignals
BackgroundWorkerBlockSignals:
.weak BackgroundWorkerInitializeConnection
BackgroundWorkerInitializeConnection:
.weak BackgroundWorkerInitializeConnectionByOid
BackgroundWorkerInitializeConnectionByOid:
.weak BackgroundWorkerUnblockSignals
BackgroundWorkerUnblockSignals:
.weak BackupHistoryFileName
BackupHistoryFileName:
.weak BackupHistoryFilePath
BackupHistoryFilePath:
.weak BaseInit
BaseInit:
.weak BasicOpenFile
BasicOpenFile:
.weak BasicOpenFilePerm
BasicOpenFilePerm:
.weak BecomeLockGroupLeader
BecomeLockGroupLeader:
.weak BecomeLockGroupMember
BecomeLockGroupMember:
.weak BeginCommand
BeginCommand:
.weak BeginCopyFrom
BeginCopyFrom:
.weak BeginCopyTo
BeginCopyTo:
.weak BeginImplicitTransactionBlock
BeginImplicitTransactionBlock:
.weak BeginInternalSubTransaction
BeginInternalSubTransaction:
.weak BeginReportingGUCOptions
BeginReportingGUCOptions:
.weak BeginTransactionBlock
BeginTransactionBlock:
.weak BgBufferSync
BgBufferSync:
.weak BlessTupleDesc
BlessTupleDesc:
.weak BlockIdEquals
BlockIdEquals:
.weak BlockIdGetBlockNumber
BlockIdGetBlockNumber:
.weak BlockIdSet
BlockIdSet:
.weak BlockNumberIsValid
BlockNumberIsValid:
.weak BlockSampler_HasMore
BlockSampler_HasMore:
.weak BlockSampler_Init
BlockSampler_Init:
.weak BlockSampler_Next
BlockSampler_Next:
.weak BoolGetDatum
BoolGetDatum:
.weak BootStrapCLOG
BootStrapCLOG:
.weak BootStrapCommitTs
BootStrapCommitTs:
.weak BootStrapMultiXact
BootStrapMultiXact:
.weak BootStrapSUBTRANS
BootStrapSUBTRANS:
.weak BootStrapXLOG
BootStrapXLOG:
.weak BoxPGetDatum
BoxPGetDatum:
.weak BufFileAppend
BufFileAppend:
.weak BufFileClose
BufFileClose:
.weak BufFileCreateFileSet
BufFileCreateFileSet:
.weak BufFileCreateTemp
BufFileCreateTemp:
.weak BufFileDeleteFileSet
BufFileDeleteFileSet:
.weak BufFileExportFileSet
BufFileExportFileSet:
.weak BufFileOpenFileSet
BufFileOpenFileSet:
.weak BufFileRead
BufFileRead:
.weak BufFileReadExact
BufFileReadExact:
.weak BufFileReadMaybeEOF
BufFileReadMaybeEOF:
.weak BufFileSeek
BufFileSeek:
.weak BufFileSeekBlock
BufFileSeekBlock:
.weak BufFileSize
BufFileSize:
.weak BufFileTell
BufFileTell:
.weak BufFileTruncateFileSet
BufFileTruncateFileSet:
.weak BufFileWrite
BufFileWrite:
.weak BufMappingPartitionLock
BufMappingPartitionLock:
.weak BufMappingPartitionLockByIndex
BufMappingPartitionLockByIndex:
.weak BufTableDelete
BufTableDelete:
.weak BufTableHashCode
BufTableHashCode:
.weak BufTableHashPartition
BufTableHashPartition:
.weak BufTableInsert
BufTableInsert:
.weak BufTableLookup
BufTableLookup:
.weak BufTableShmemSize
BufTableShmemSize:
.weak BufTagGetForkNum
BufTagGetForkNum:
.weak BufTagGetRelFileLocator
BufTagGetRelFileLocator:
.weak BufTagGetRelNumber
BufTagGetRelNumber:
.weak BufTagMatchesRelFileLocator
BufTagMatchesRelFileLocator:
.weak BufTagSetRelForkDetails
BufTagSetRelForkDetails:
.weak BufferDescriptorGetBuffer
BufferDescriptorGetBuffer:
.weak BufferDescriptorGetContentLock
BufferDescriptorGetContentLock:
.weak BufferDescriptorGetIOCV
BufferDescriptorGetIOCV:
.weak BufferGetBlockNumber
BufferGetBlockNumber:
.weak BufferGetLSNAtomic
BufferGetLSNAtomic:
.weak BufferGetPageSize
BufferGetPageSize:
.weak BufferGetTag
BufferGetTag:
.weak BufferIsPermanent
BufferIsPermanent:
.weak BufferIsValid
BufferIsValid:
.weak BufferShmemSize
BufferShmemSize:
.weak BufferTagsEqual
BufferTagsEqual:
.weak BufferUsageAccumDiff
BufferUsageAccumDiff:
.weak BuildDescForRelation
BuildDescForRelation:
.weak BuildDescFromLists
BuildDescFromLists:
.weak BuildDummyIndexInfo
BuildDummyIndexInfo:
.weak BuildIndexInfo
BuildIndexInfo:
.weak BuildIndexValueDescription
BuildIndexValueDescription:
.weak BuildOnConflictExcludedTargetlist
BuildOnConflictExcludedTargetlist:
.weak BuildParamLogString
BuildParamLogString:
.weak BuildQueryCompletionString
BuildQueryCompletionString:
.weak BuildRelationExtStatistics
BuildRelationExtStatistics:
.weak BuildSpeculativeIndexInfo
BuildSpeculativeIndexInfo:
.weak BuildTupleFromCStrings
BuildTupleFromCStrings:
.weak BuildTupleHashTable
BuildTupleHashTable:
.weak BuildTupleHashTableExt
BuildTupleHashTableExt:
.weak CLOGShmemBuffers
CLOGShmemBuffers:
.weak CLOGShmemInit
CLOGShmemInit:
.weak CLOGShmemSize
CLOGShmemSize:
.weak CNStoBIG5
CNStoBIG5:
.weak CStringGetDatum
CStringGetDatum:
.weak CacheInvalidateCatalog
CacheInvalidateCatalog:
.weak CacheInvalidateHeapTuple
CacheInvalidateHeapTuple:
.weak CacheInvalidateHeapTupleInplace
CacheInvalidateHeapTupleInplace:
.weak CacheInvalidateRelcache
CacheInvalidateRelcache:
.weak CacheInvalidateRelcacheAll
CacheInvalidateRelcacheAll:
.weak CacheInvalidateRelcacheByRelid
CacheInvalidateRelcacheByRelid:
.weak CacheInvalidateRelcacheByTuple
CacheInvalidateRelcacheByTuple:
.weak CacheInvalidateRelmap
CacheInvalidateRelmap:
.weak CacheInvalidateSmgr
CacheInvalidateSmgr:
.weak CacheRegisterRelcacheCallback
CacheRegisterRelcacheCallback:
.weak CacheRegisterSyscacheCallback
CacheRegisterSyscacheCallback:
.weak CachedPlanAllowsSimpleValidityCheck
CachedPlanAllowsSimpleValidityCheck:
.weak CachedPlanGetTargetList
CachedPlanGetTargetList:
.weak CachedPlanIsSimplyValid
CachedPlanIsSimplyValid:
.weak CachedPlanIsValid
CachedPlanIsValid:
.weak CachedPlanSetParentContext
CachedPlanSetParentContext:
.weak CalculateShmemSize
CalculateShmemSize:
.weak CallStmtResultDesc
CallStmtResultDesc:
.weak CallSyscacheCallbacks
CallSyscacheCallbacks:
.weak CallerFInfoFunctionCall1
CallerFInfoFunctionCall1:
.weak CallerFInfoFunctionCall2
CallerFInfoFunctionCall2:
.weak CancelDBBackends
CancelDBBackends:
.weak CancelVirtualTransaction
CancelVirtualTransaction:
.weak CatCacheInvalidate
CatCacheInvalidate:
.weak CatalogCacheFlushCatalog
CatalogCacheFlushCatalog:
.weak CatalogCloseIndexes
CatalogCloseIndexes:
.weak CatalogOpenIndexes
CatalogOpenIndexes:
.weak CatalogTupleDelete
CatalogTupleDelete:
.weak CatalogTupleInsert
CatalogTupleInsert:
.weak CatalogTupleInsertWithInfo
CatalogTupleInsertWithInfo:
.weak CatalogTupleUpdate
CatalogTupleUpdate:
.weak CatalogTupleUpdateWithInfo
CatalogTupleUpdateWithInfo:
.weak CatalogTuplesMultiInsertWithInfo
CatalogTuplesMultiInsertWithInfo:
.weak ChangeToDataDir
ChangeToDataDir:
.weak ChangeVarNodes
ChangeVarNodes:
.weak CharGetDatum
CharGetDatum:
.weak CheckAttributeNamesTypes
CheckAttributeNamesTypes:
.weak CheckAttributeType
CheckAttributeType:
.weak CheckBufferIsPinnedOnce
CheckBufferIsPinnedOnce:
.weak CheckCmdReplicaIdentity
CheckCmdReplicaIdentity:
.weak CheckDateTokenTables
CheckDateTokenTables:
.weak CheckDeadLockAlert
CheckDeadLockAlert:
.weak CheckExprStillValid
CheckExprStillValid:
.weak CheckFunctionValidatorAccess
CheckFunctionValidatorAccess:
.weak CheckIndexCompatible
CheckIndexCompatible:
.weak CheckLogicalDecodingRequirements
CheckLogicalDecodingRequirements:
.weak CheckLogrotateSignal
CheckLogrotateSignal:
.weak CheckPointBuffers
CheckPointBuffers:
.weak CheckPointCLOG
CheckPointCLOG:
.weak CheckPointCommitTs
CheckPointCommitTs:
.weak CheckPointMultiXact
CheckPointMultiXact:
.weak CheckPointReplicationOrigin
CheckPointReplicationOrigin:
.weak CheckPointReplicationSlots
CheckPointReplicationSlots:
.weak CheckPointSUBTRANS
CheckPointSUBTRANS:
.weak CheckPromoteSignal
CheckPromoteSignal:
.weak CheckRecoveryConflictDeadlock
CheckRecoveryConflictDeadlock:
.weak CheckRelationLockedByMe
CheckRelationLockedByMe:
.weak CheckRelationOidLockedByMe
CheckRelationOidLockedByMe:
.weak CheckRelationTableSpaceMove
CheckRelationTableSpaceMove:
.weak CheckSelectLocking
CheckSelectLocking:
.weak CheckSetNamespace
CheckSetNamespace:
.weak CheckSlotPermissions
CheckSlotPermissions:
.weak CheckSlotRequirements
CheckSlotRequirements:
.weak CheckSubscriptionRelkind
CheckSubscriptionRelkind:
.weak CheckTableNotInUse
CheckTableNotInUse:
.weak CheckUsageOnTypesInExpr
CheckUsageOnTypesInExpr:
.weak CheckUsageOnTypesInSingleRelExpr
CheckUsageOnTypesInSingleRelExpr:
.weak CheckValidResultRel
CheckValidResultRel:
.weak CheckValidResultRelNew
CheckValidResultRelNew:
.weak CheckXLogRemoved
CheckXLogRemoved:
.weak ChoosePortalStrategy
ChoosePortalStrategy:
.weak ChooseRelationName
ChooseRelationName:
.weak CirclePGetDatum
CirclePGetDatum:
.weak CleanQuerytext
CleanQuerytext:
.weak ClearBufferTag
ClearBufferTag:
.weak ClosePipeStream
ClosePipeStream:
.weak ClosePostmasterPorts
ClosePostmasterPorts:
.weak CloseTransientFile
CloseTransientFile:
.weak CollationCreate
CollationCreate:
.weak CollationGetCollid
CollationGetCollid:
.weak CollationIsVisible
CollationIsVisible:
.weak CombineRangeTables
CombineRangeTables:
.weak CommandCounterIncrement
CommandCounterIncrement:
.weak CommandEndInvalidationMessages
CommandEndInvalidationMessages:
.weak CommandIdGetDatum
CommandIdGetDatum:
.weak CommandIsReadOnly
CommandIsReadOnly:
.weak CommentObject
CommentObject:
.weak CommitTransactionCommand
CommitTransactionCommand:
.weak CommitTsParameterChange
CommitTsParameterChange:
.weak CommitTsShmemBuffers
CommitTsShmemBuffers:
.weak CommitTsShmemInit
CommitTsShmemInit:
.weak CommitTsShmemSize
CommitTsShmemSize:
.weak CommuteOpExpr
CommuteOpExpr:
.weak CompareIndexInfo
CompareIndexInfo:
.weak CompleteCachedPlan
CompleteCachedPlan:
.weak CompleteCommitTsInitialization
CompleteCommitTsInitialization:
.weak ComputeExtStatisticsRows
ComputeExtStatisticsRows:
.weak ConditionVariableBroadcast
ConditionVariableBroadcast:
.weak ConditionVariableCancelSleep
ConditionVariableCancelSleep:
.weak ConditionVariableInit
ConditionVariableInit:
.weak ConditionVariablePrepareToSleep
ConditionVariablePrepareToSleep:
.weak ConditionVariableSignal
ConditionVariableSignal:
.weak ConditionVariableSleep
ConditionVariableSleep:
.weak ConditionVariableTimedSleep
ConditionVariableTimedSleep:
.weak ConditionalLockBuffer
ConditionalLockBuffer:
.weak ConditionalLockBufferForCleanup
ConditionalLockBufferForCleanup:
.weak ConditionalLockDatabaseObject
ConditionalLockDatabaseObject:
.weak ConditionalLockPage
ConditionalLockPage:
.weak ConditionalLockRelation
ConditionalLockRelation:
.weak ConditionalLockRelationForExtension
ConditionalLockRelationForExtension:
.weak ConditionalLockRelationOid
ConditionalLockRelationOid:
.weak ConditionalLockTuple
ConditionalLockTuple:
.weak ConditionalXactLockTableWait
ConditionalXactLockTableWait:
.weak ConfigOptionIsVisible
ConfigOptionIsVisible:
.weak ConversionGetConid
ConversionGetConid:
.weak ConversionIsVisible
ConversionIsVisible:
.weak ConvertTimeZoneAbbrevs
ConvertTimeZoneAbbrevs:
.weak CopyArrayEls
CopyArrayEls:
.weak CopyCachedPlan
CopyCachedPlan:
.weak CopyErrorData
CopyErrorData:
.weak CopyFrom
CopyFrom:
.weak CopyFromErrorCallback
CopyFromErrorCallback:
.weak CopyGetAttnums
CopyGetAttnums:
.weak CopyIndexTuple
CopyIndexTuple:
.weak CopyOverrideSearchPath
CopyOverrideSearchPath:
.weak CopyQueryCompletion
CopyQueryCompletion:
.weak CopyStatistics
CopyStatistics:
.weak CopyTriggerDesc
CopyTriggerDesc:
.weak CountDBBackends
CountDBBackends:
.weak CountDBConnections
CountDBConnections:
.weak CountOtherDBBackends
CountOtherDBBackends:
.weak CountUserBackends
CountUserBackends:
.weak CreateAccessMethod
CreateAccessMethod:
.weak CreateAndCopyRelationData
CreateAndCopyRelationData:
.weak CreateAuxProcessResourceOwner
CreateAuxProcessResourceOwner:
.weak CreateCacheMemoryContext
CreateCacheMemoryContext:
.weak CreateCachedPlan
CreateCachedPlan:
.weak CreateCast
CreateCast:
.weak CreateCheckPoint
CreateCheckPoint:
.weak CreateCommandName
CreateCommandName:
.weak CreateCommandTag
CreateCommandTag:
.weak CreateComments
CreateComments:
.weak CreateCopyDestReceiver
CreateCopyDestReceiver:
.weak CreateDataDirLockFile
CreateDataDirLockFile:
.weak CreateDecodingContext
CreateDecodingContext:
.weak CreateDestReceiver
CreateDestReceiver:
.weak CreateEventTrigger
CreateEventTrigger:
.weak CreateExecutorState
CreateExecutorState:
.weak CreateExprContext
CreateExprContext:
.weak CreateExtension
CreateExtension:
.weak CreateFakeRelcacheEntry
CreateFakeRelcacheEntry:
.weak CreateForeignDataWrapper
CreateForeignDataWrapper:
.weak CreateForeignServer
CreateForeignServer:
.weak CreateForeignTable
CreateForeignTable:
.weak CreateFunction
CreateFunction:
.weak CreateInitDecodingContext
CreateInitDecodingContext:
.weak CreateLWLocks
CreateLWLocks:
.weak CreateNewPortal
CreateNewPortal:
.weak CreateOneShotCachedPlan
CreateOneShotCachedPlan:
.weak CreateParallelContext
CreateParallelContext:
.weak CreatePartitionDirectory
CreatePartitionDirectory:
.weak CreatePortal
CreatePortal:
.weak CreateProceduralLanguage
CreateProceduralLanguage:
.weak CreatePublication
CreatePublication:
.weak CreateQueryDesc
CreateQueryDesc:
.weak CreateRestartPoint
CreateRestartPoint:
.weak CreateRole
CreateRole:
.weak CreateSharedBackendStatus
CreateSharedBackendStatus:
.weak CreateSharedComments
CreateSharedComments:
.weak CreateSharedMemoryAndSemaphores
CreateSharedMemoryAndSemaphores:
.weak CreateSharedProcArray
CreateSharedProcArray:
.weak CreateSocketLockFile
CreateSocketLockFile:
.weak CreateStandaloneExprContext
CreateStandaloneExprContext:
.weak CreateStatistics
CreateStatistics:
.weak CreateTableSpace
CreateTableSpace:
.weak CreateTemplateTupleDesc
CreateTemplateTupleDesc:
.weak CreateTransform
CreateTransform:
.weak CreateTrigger
CreateTrigger:
.weak CreateTriggerFiringOn
CreateTriggerFiringOn:
.weak CreateTupleDesc
CreateTupleDesc:
.weak CreateTupleDescCopy
CreateTupleDescCopy:
.weak CreateTupleDescCopyConstr
CreateTupleDescCopyConstr:
.weak CreateUserMapping
CreateUserMapping:
.weak CreateWaitEventSet
CreateWaitEventSet:
.weak CreateWorkExprContext
CreateWorkExprContext:
.weak DataChecksumsEnabled
DataChecksumsEnabled:
.weak DateADTGetDatum
DateADTGetDatum:
.weak DateTimeParseError
DateTimeParseError:
.weak DatumGetAnyArrayP
DatumGetAnyArrayP:
.weak DatumGetBool
DatumGetBool:
.weak DatumGetBoxP
DatumGetBoxP:
.weak DatumGetCString
DatumGetCString:
.weak DatumGetChar
DatumGetChar:
.weak DatumGetCircleP
DatumGetCircleP:
.weak DatumGetCommandId
DatumGetCommandId:
.weak DatumGetDateADT
DatumGetDateADT:
.weak DatumGetEOHP
DatumGetEOHP:
.weak DatumGetExpandedArray
DatumGetExpandedArray:
.weak DatumGetExpandedArrayX
DatumGetExpandedArrayX:
.weak DatumGetExpandedRecord
DatumGetExpandedRecord:
.weak DatumGetFloat4
DatumGetFloat4:
.weak DatumGetFloat8
DatumGetFloat8:
.weak DatumGetGinTernaryValue
DatumGetGinTernaryValue:
.weak DatumGetInt16
DatumGetInt16:
.weak DatumGetInt32
DatumGetInt32:
.weak DatumGetInt64
DatumGetInt64:
.weak DatumGetIntervalP
DatumGetIntervalP:
.weak DatumGetItemPointer
DatumGetItemPointer:
.weak DatumGetJsonbP
DatumGetJsonbP:
.weak DatumGetJsonbPCopy
DatumGetJsonbPCopy:
.weak DatumGetLineP
DatumGetLineP:
.weak DatumGetLsegP
DatumGetLsegP:
.weak DatumGetName
DatumGetName:
.weak DatumGetNumeric
DatumGetNumeric:
.weak DatumGetNumericCopy
DatumGetNumericCopy:
.weak DatumGetObjectId
DatumGetObjectId:
.weak DatumGetPathP
DatumGetPathP:
.weak DatumGetPathPCopy
DatumGetPathPCopy:
.weak DatumGetPointP
DatumGetPointP:
.weak DatumGetPointer
DatumGetPointer:
.weak DatumGetPolygonP
DatumGetPolygonP:
.weak DatumGetPolygonPCopy
DatumGetPolygonPCopy:
.weak DatumGetRangeTypeP
DatumGetRangeTypeP:
.weak DatumGetRangeTypePCopy
DatumGetRangeTypePCopy:
.weak DatumGetTSQuery
DatumGetTSQuery:
.weak DatumGetTSQueryCopy
DatumGetTSQueryCopy:
.weak DatumGetTSQuerySign
DatumGetTSQuerySign:
.weak DatumGetTSVector
DatumGetTSVector:
.weak DatumGetTSVectorCopy
DatumGetTSVectorCopy:
.weak DatumGetTimeADT
DatumGetTimeADT:
.weak DatumGetTimeTzADTP
DatumGetTimeTzADTP:
.weak DatumGetTimestamp
DatumGetTimestamp:
.weak DatumGetTimestampTz
DatumGetTimestampTz:
.weak DatumGetTransactionId
DatumGetTransactionId:
.weak DatumGetUInt16
DatumGetUInt16:
.weak DatumGetUInt32
DatumGetUInt32:
.weak DatumGetUInt64
DatumGetUInt64:
.weak DatumGetUInt8
DatumGetUInt8:
.weak DeadLockCheck
DeadLockCheck:
.weak DeadLockReport
DeadLockReport:
.weak DeallocateQuery
DeallocateQuery:
.weak DebugFileOpen
DebugFileOpen:
.weak DecodeDateTime
DecodeDateTime:
.weak DecodeISO8601Interval
DecodeISO8601Interval:
.weak DecodeInterval
DecodeInterval:
.weak DecodeSpecial
DecodeSpecial:
.weak DecodeTimeOnly
DecodeTimeOnly:
.weak DecodeTimezone
DecodeTimezone:
.weak DecodeTimezoneAbbrev
DecodeTimezoneAbbrev:
.weak DecodeTimezoneName
DecodeTimezoneName:
.weak DecodeTimezoneNameToTz
DecodeTimezoneNameToTz:
.weak DecodeUnits
DecodeUnits:
.weak DecodeXLogRecord
DecodeXLogRecord:
.weak DecodeXLogRecordRequiredSpace
DecodeXLogRecordRequiredSpace:
.weak DecodingContextFindStartpoint
DecodingContextFindStartpoint:
.weak DecodingContextReady
DecodingContextReady:
.weak DeconstructQualifiedName
DeconstructQualifiedName:
.weak DecrTupleDescRefCount
DecrTupleDescRefCount:
.weak DeescapeQuotedString
DeescapeQuotedString:
.weak DefineAggregate
DefineAggregate:
.weak DefineCustomBoolVariable
DefineCustomBoolVariable:
.weak DefineCustomEnumVariable
DefineCustomEnumVariable:
.weak DefineCustomIntVariable
DefineCustomIntVariable:
.weak DefineCustomRealVariable
DefineCustomRealVariable:
.weak DefineCustomStringVariable
DefineCustomStringVariable:
.weak DefineIndex
DefineIndex:
.weak DefineOpClass
DefineOpClass:
.weak DefineOpFamily
DefineOpFamily:
.weak DefineOperator
DefineOperator:
.weak DefineRelation
DefineRelation:
.weak DefineSavepoint
DefineSavepoint:
.weak DefineTSConfiguration
DefineTSConfiguration:
.weak DefineTSDictionary
DefineTSDictionary:
.weak DefineTSParser
DefineTSParser:
.weak DefineTSTemplate
DefineTSTemplate:
.weak DeleteAllExportedSnapshotFiles
DeleteAllExportedSnapshotFiles:
.weak DeleteAttributeTuples
DeleteAttributeTuples:
.weak DeleteComments
DeleteComments:
.weak DeleteExpandedObject
DeleteExpandedObject:
.weak DeleteRelationTuple
DeleteRelationTuple:
.weak DeleteSecurityLabel
DeleteSecurityLabel:
.weak DeleteSharedComments
DeleteSharedComments:
.weak DeleteSharedSecurityLabel
DeleteSharedSecurityLabel:
.weak DeleteSystemAttributeTuples
DeleteSystemAttributeTuples:
.weak DescribeLockTag
DescribeLockTag:
.weak DestroyParallelContext
DestroyParallelContext:
.weak DestroyPartitionDirectory
DestroyPartitionDirectory:
.weak DetermineTimeZoneAbbrevOffset
DetermineTimeZoneAbbrevOffset:
.weak DetermineTimeZoneAbbrevOffsetTS
DetermineTimeZoneAbbrevOffsetTS:
.weak DetermineTimeZoneOffset
DetermineTimeZoneOffset:
.weak DirectFunctionCall1Coll
DirectFunctionCall1Coll:
.weak DirectFunctionCall2Coll
DirectFunctionCall2Coll:
.weak DirectFunctionCall3Coll
DirectFunctionCall3Coll:
.weak DirectFunctionCall4Coll
DirectFunctionCall4Coll:
.weak DirectFunctionCall5Coll
DirectFunctionCall5Coll:
.weak DirectFunctionCall6Coll
DirectFunctionCall6Coll:
.weak DirectFunctionCall7Coll
DirectFunctionCall7Coll:
.weak DirectFunctionCall8Coll
DirectFunctionCall8Coll:
.weak DirectFunctionCall9Coll
DirectFunctionCall9Coll:
.weak DirectInputFunctionCallSafe
DirectInputFunctionCallSafe:
.weak DisownLatch
DisownLatch:
.weak DoCopy
DoCopy:
.weak DoCopyTo
DoCopyTo:
.weak DoLockModesConflict
DoLockModesConflict:
.weak DomainHasConstraints
DomainHasConstraints:
.weak DropAllPreparedStatements
DropAllPreparedStatements:
.weak DropCachedPlan
DropCachedPlan:
.weak DropDatabase
DropDatabase:
.weak DropDatabaseBuffers
DropDatabaseBuffers:
.weak DropOwnedObjects
DropOwnedObjects:
.weak DropPreparedStatement
DropPreparedStatement:
.weak DropRelationAllLocalBuffers
DropRelationAllLocalBuffers:
.weak DropRelationBuffers
DropRelationBuffers:
.weak DropRelationLocalBuffers
DropRelationLocalBuffers:
.weak DropRelationsAllBuffers
DropRelationsAllBuffers:
.weak DropRole
DropRole:
.weak DropTableSpace
DropTableSpace:
.weak ENRMetadataGetTupDesc
ENRMetadataGetTupDesc:
.weak EOHPGetRODatum
EOHPGetRODatum:
.weak EOHPGetRWDatum
EOHPGetRWDatum:
.weak EOH_flatten_into
EOH_flatten_into:
.weak EOH_get_flat_size
EOH_get_flat_size:
.weak EOH_init_header
EOH_init_header:
.weak EmitErrorReport
EmitErrorReport:
.weak EmitProcSignalBarrier
EmitProcSignalBarrier:
.weak EnableDisableTrigger
EnableDisableTrigger:
.weak EnablePortalManager
EnablePortalManager:
.weak EnableQueryId
EnableQueryId:
.weak EncodeDateOnly
EncodeDateOnly:
.weak EncodeDateTime
EncodeDateTime:
.weak EncodeInterval
EncodeInterval:
.weak EncodeSpecialDate
EncodeSpecialDate:
.weak EncodeSpecialTimestamp
EncodeSpecialTimestamp:
.weak EncodeTimeOnly
EncodeTimeOnly:
.weak EndCommand
EndCommand:
.weak EndCopyFrom
EndCopyFrom:
.weak EndCopyTo
EndCopyTo:
.weak EndImplicitTransactionBlock
EndImplicitTransactionBlock:
.weak EndParallelWorkerTransaction
EndParallelWorkerTransaction:
.weak EndReplicationCommand
EndReplicationCommand:
.weak EndTransactionBlock
EndTransactionBlock:
.weak EnsurePortalSnapshotExists
EnsurePortalSnapshotExists:
.weak EnterParallelMode
EnterParallelMode:
.weak EnumUncommitted
EnumUncommitted:
.weak EnumValuesCreate
EnumValuesCreate:
.weak EnumValuesDelete
EnumValuesDelete:
.weak EstimateClientConnectionInfoSpace
EstimateClientConnectionInfoSpace:
.weak EstimateGUCStateSpace
EstimateGUCStateSpace:
.weak EstimateLibraryStateSpace
EstimateLibraryStateSpace:
.weak EstimateParamListSpace
EstimateParamListSpace:
.weak EstimatePendingSyncsSpace
EstimatePendingSyncsSpace:
.weak EstimateReindexStateSpace
EstimateReindexStateSpace:
.weak EstimateSnapshotSpace
EstimateSnapshotSpace:
.weak EstimateTransactionStateSpace
EstimateTransactionStateSpace:
.weak EstimateUncommittedEnumsSpace
EstimateUncommittedEnumsSpace:
.weak EvalPlanQual
EvalPlanQual:
.weak EvalPlanQualBegin
EvalPlanQualBegin:
.weak EvalPlanQualEnd
EvalPlanQualEnd:
.weak EvalPlanQualFetchRowMark
EvalPlanQualFetchRowMark:
.weak EvalPlanQualInit
EvalPlanQualInit:
.weak EvalPlanQualNext
EvalPlanQualNext:
.weak EvalPlanQualSetPlan
EvalPlanQualSetPlan:
.weak EvalPlanQualSlot
EvalPlanQualSlot:
.weak EventTriggerAlterTableEnd
EventTriggerAlterTableEnd:
.weak EventTriggerAlterTableRelid
EventTriggerAlterTableRelid:
.weak EventTriggerAlterTableStart
EventTriggerAlterTableStart:
.weak EventTriggerBeginCompleteQuery
EventTriggerBeginCompleteQuery:
.weak EventTriggerCollectAlterDefPrivs
EventTriggerCollectAlterDefPrivs:
.weak EventTriggerCollectAlterOpFam
EventTriggerCollectAlterOpFam:
.weak EventTriggerCollectAlterTSConfig
EventTriggerCollectAlterTSConfig:
.weak EventTriggerCollectAlterTableSubcmd
EventTriggerCollectAlterTableSubcmd:
.weak EventTriggerCollectCreateOpClass
EventTriggerCollectCreateOpClass:
.weak EventTriggerCollectGrant
EventTriggerCollectGrant:
.weak EventTriggerCollectSimpleCommand
EventTriggerCollectSimpleCommand:
.weak EventTriggerDDLCommandEnd
EventTriggerDDLCommandEnd:
.weak EventTriggerDDLCommandStart
EventTriggerDDLCommandStart:
.weak EventTriggerEndCompleteQuery
EventTriggerEndCompleteQuery:
.weak EventTriggerInhibitCommandCollection
EventTriggerInhibitCommandCollection:
.weak EventTriggerSQLDrop
EventTriggerSQLDrop:
.weak EventTriggerSQLDropAddObject
EventTriggerSQLDropAddObject:
.weak EventTriggerSupportsObjectClass
EventTriggerSupportsObjectClass:
.weak EventTriggerSupportsObjectType
EventTriggerSupportsObjectType:
.weak EventTriggerTableRewrite
EventTriggerTableRewrite:
.weak EventTriggerUndoInhibitCommandCollection
EventTriggerUndoInhibitCommandCollection:
.weak ExceptionalCondition
ExceptionalCondition:
.weak ExecARDeleteTriggers
ExecARDeleteTriggers:
.weak ExecARInsertTriggers
ExecARInsertTriggers:
.weak ExecARUpdateTriggers
ExecARUpdateTriggers:
.weak ExecASDeleteTriggers
ExecASDeleteTriggers:
.weak ExecASInsertTriggers
ExecASInsertTriggers:
.weak ExecASTruncateTriggers
ExecASTruncateTriggers:
.weak ExecASUpdateTriggers
ExecASUpdateTriggers:
.weak ExecAggCopyTransValue
ExecAggCopyTransValue:
.weak ExecAggEstimate
ExecAggEstimate:
.weak ExecAggInitGroup
ExecAggInitGroup:
.weak ExecAggInitializeDSM
ExecAggInitializeDSM:
.weak ExecAggInitializeWorker
ExecAggInitializeWorker:
.weak ExecAggRetrieveInstrumentation
ExecAggRetrieveInstrumentation:
.weak ExecAllocTableSlot
ExecAllocTableSlot:
.weak ExecAlterDefaultPrivilegesStmt
ExecAlterDefaultPrivilegesStmt:
.weak ExecAlterExtensionContentsStmt
ExecAlterExtensionContentsStmt:
.weak ExecAlterExtensionStmt
ExecAlterExtensionStmt:
.weak ExecAssignExprContext
ExecAssignExprContext:
.weak ExecAssignProjectionInfo
ExecAssignProjectionInfo:
.weak ExecAssignScanProjectionInfo
ExecAssignScanProjectionInfo:
.weak ExecAssignScanProjectionInfoWithVarno
ExecAssignScanProjectionInfoWithVarno:
.weak ExecAssignScanType
ExecAssignScanType:
.weak ExecBRDeleteTriggers
ExecBRDeleteTriggers:
.weak ExecBRInsertTriggers
ExecBRInsertTriggers:
.weak ExecBRUpdateTriggers
ExecBRUpdateTriggers:
.weak ExecBSDeleteTriggers
ExecBSDeleteTriggers:
.weak ExecBSInsertTriggers
ExecBSInsertTriggers:
.weak ExecBSTruncateTriggers
ExecBSTruncateTriggers:
.weak ExecBSUpdateTriggers
ExecBSUpdateTriggers:
.weak ExecBuildAggTrans
ExecBuildAggTrans:
.weak ExecBuildAuxRowMark
ExecBuildAuxRowMark:
.weak ExecBuildGroupingEqual
ExecBuildGroupingEqual:
.weak ExecBuildParamSetEqual
ExecBuildParamSetEqual:
.weak ExecBuildProjectionInfo
ExecBuildProjectionInfo:
.weak ExecBuildUpdateProjection
ExecBuildUpdateProjection:
.weak ExecCheck
ExecCheck:
.weak ExecCheckIndexConstraints
ExecCheckIndexConstraints:
.weak ExecCheckOneRelPerms
ExecCheckOneRelPerms:
.weak ExecCheckPermissions
ExecCheckPermissions:
.weak ExecCleanTargetListLength
ExecCleanTargetListLength:
.weak ExecCleanTypeFromTL
ExecCleanTypeFromTL:
.weak ExecClearTuple
ExecClearTuple:
.weak ExecCloseIndices
ExecCloseIndices:
.weak ExecCloseRangeTableRelations
ExecCloseRangeTableRelations:
.weak ExecCloseResultRelations
ExecCloseResultRelations:
.weak ExecConditionalAssignProjectionInfo
ExecConditionalAssignProjectionInfo:
.weak ExecConstraints
ExecConstraints:
.weak ExecCopySlot
ExecCopySlot:
.weak ExecCopySlotHeapTuple
ExecCopySlotHeapTuple:
.weak ExecCopySlotMinimalTuple
ExecCopySlotMinimalTuple:
.weak ExecCreateScanSlotFromOuterPlan
ExecCreateScanSlotFromOuterPlan:
.weak ExecDropSingleTupleTableSlot
ExecDropSingleTupleTableSlot:
.weak ExecEndAgg
ExecEndAgg:
.weak ExecEndNode
ExecEndNode:
.weak ExecEvalAggOrderedTransDatum
ExecEvalAggOrderedTransDatum:
.weak ExecEvalAggOrderedTransTuple
ExecEvalAggOrderedTransTuple:
.weak ExecEvalArrayCoerce
ExecEvalArrayCoerce:
.weak ExecEvalArrayExpr
ExecEvalArrayExpr:
.weak ExecEvalConstraintCheck
ExecEvalConstraintCheck:
.weak ExecEvalConstraintNotNull
ExecEvalConstraintNotNull:
.weak ExecEvalConvertRowtype
ExecEvalConvertRowtype:
.weak ExecEvalCurrentOfExpr
ExecEvalCurrentOfExpr:
.weak ExecEvalExpr
ExecEvalExpr:
.weak ExecEvalExprSwitchContext
ExecEvalExprSwitchContext:
.weak ExecEvalFieldSelect
ExecEvalFieldSelect:
.weak ExecEvalFieldStoreDeForm
ExecEvalFieldStoreDeForm:
.weak ExecEvalFieldStoreForm
ExecEvalFieldStoreForm:
.weak ExecEvalFuncExprFusage
ExecEvalFuncExprFusage:
.weak ExecEvalFuncExprStrictFusage
ExecEvalFuncExprStrictFusage:
.weak ExecEvalGroupingFunc
ExecEvalGroupingFunc:
.weak ExecEvalHashedScalarArrayOp
ExecEvalHashedScalarArrayOp:
.weak ExecEvalJsonConstructor
ExecEvalJsonConstructor:
.weak ExecEvalJsonIsPredicate
ExecEvalJsonIsPredicate:
.weak ExecEvalMinMax
ExecEvalMinMax:
.weak ExecEvalNextValueExpr
ExecEvalNextValueExpr:
.weak ExecEvalParamExec
ExecEvalParamExec:
.weak ExecEvalParamExtern
ExecEvalParamExtern:
.weak ExecEvalPreOrderedDistinctMulti
ExecEvalPreOrderedDistinctMulti:
.weak ExecEvalPreOrderedDistinctSingle
ExecEvalPreOrderedDistinctSingle:
.weak ExecEvalRow
ExecEvalRow:
.weak ExecEvalRowNotNull
ExecEvalRowNotNull:
.weak ExecEvalRowNull
ExecEvalRowNull:
.weak ExecEvalSQLValueFunction
ExecEvalSQLValueFunction:
.weak ExecEvalScalarArrayOp
ExecEvalScalarArrayOp:
.weak ExecEvalStepOp
ExecEvalStepOp:
.weak ExecEvalSubPlan
ExecEvalSubPlan:
.weak ExecEvalSysVar
ExecEvalSysVar:
.weak ExecEvalWholeRowVar
ExecEvalWholeRowVar:
.weak ExecEvalXmlExpr
ExecEvalXmlExpr:
.weak ExecFetchSlotHeapTuple
ExecFetchSlotHeapTuple:
.weak ExecFetchSlotHeapTupleDatum
ExecFetchSlotHeapTupleDatum:
.weak ExecFetchSlotMinimalTuple
ExecFetchSlotMinimalTuple:
.weak ExecFilterJunk
ExecFilterJunk:
.weak ExecFindJunkAttribute
ExecFindJunkAttribute:
.weak ExecFindJunkAttributeInTlist
ExecFindJunkAttributeInTlist:
.weak ExecFindRowMark
ExecFindRowMark:
.weak ExecForceStoreHeapTuple
ExecForceStoreHeapTuple:
.weak ExecForceStoreMinimalTuple
ExecForceStoreMinimalTuple:
.weak ExecFreeExprContext
ExecFreeExprContext:
.weak ExecGetAllUpdatedCols
ExecGetAllUpdatedCols:
.weak ExecGetAncestorResultRels
ExecGetAncestorResultRels:
.weak ExecGetChildToRootMap
ExecGetChildToRootMap:
.weak ExecGetExtraUpdatedCols
ExecGetExtraUpdatedCols:
.weak ExecGetInsertedCols
ExecGetInsertedCols:
.weak ExecGetJunkAttribute
ExecGetJunkAttribute:
.weak ExecGetRangeTableRelation
ExecGetRangeTableRelation:
.weak ExecGetResultRelCheckAsUser
ExecGetResultRelCheckAsUser:
.weak ExecGetResultSlotOps
ExecGetResultSlotOps:
.weak ExecGetResultType
ExecGetResultType:
.weak ExecGetReturningSlot
ExecGetReturningSlot:
.weak ExecGetRootToChildMap
ExecGetRootToChildMap:
.weak ExecGetTriggerNewSlot
ExecGetTriggerNewSlot:
.weak ExecGetTriggerOldSlot
ExecGetTriggerOldSlot:
.weak ExecGetTriggerResultRel
ExecGetTriggerResultRel:
.weak ExecGetUpdateNewTuple
ExecGetUpdateNewTuple:
.weak ExecGetUpdatedCols
ExecGetUpdatedCols:
.weak ExecIRDeleteTriggers
ExecIRDeleteTriggers:
.weak ExecIRInsertTriggers
ExecIRInsertTriggers:
.weak ExecIRUpdateTriggers
ExecIRUpdateTriggers:
.weak ExecInitAgg
ExecInitAgg:
.weak ExecInitCheck
ExecInitCheck:
.weak ExecInitExpr
ExecInitExpr:
.weak ExecInitExprList
ExecInitExprList:
.weak ExecInitExprWithParams
ExecInitExprWithParams:
.weak ExecInitExtraTupleSlot
ExecInitExtraTupleSlot:
.weak ExecInitFunctionResultSet
ExecInitFunctionResultSet:
.weak ExecInitJunkFilter
ExecInitJunkFilter:
.weak ExecInitJunkFilterConversion
ExecInitJunkFilterConversion:
.weak ExecInitNode
ExecInitNode:
.weak ExecInitNullTupleSlot
ExecInitNullTupleSlot:
.weak ExecInitQual
ExecInitQual:
.weak ExecInitRangeTable
ExecInitRangeTable:
.weak ExecInitResultRelation
ExecInitResultRelation:
.weak ExecInitResultSlot
ExecInitResultSlot:
.weak ExecInitResultTupleSlotTL
ExecInitResultTupleSlotTL:
.weak ExecInitResultTypeTL
ExecInitResultTypeTL:
.weak ExecInitScanTupleSlot
ExecInitScanTupleSlot:
.weak ExecInitTableFunctionResult
ExecInitTableFunctionResult:
.weak ExecInsertIndexTuples
ExecInsertIndexTuples:
.weak ExecInterpExprStillValid
ExecInterpExprStillValid:
.weak ExecLookupResultRelByOid
ExecLookupResultRelByOid:
.weak ExecMakeFunctionResultSet
ExecMakeFunctionResultSet:
.weak ExecMakeTableFunctionResult
ExecMakeTableFunctionResult:
.weak ExecMarkPos
ExecMarkPos:
.weak ExecMaterializeSlot
ExecMaterializeSlot:
.weak ExecMaterializesOutput
ExecMaterializesOutput:
.weak ExecOpenIndices
ExecOpenIndices:
.weak ExecOpenScanRelation
ExecOpenScanRelation:
.weak ExecPartitionCheck
ExecPartitionCheck:
.weak ExecPartitionCheckEmitError
ExecPartitionCheckEmitError:
.weak ExecPrepareCheck
ExecPrepareCheck:
.weak ExecPrepareExpr
ExecPrepareExpr:
.weak ExecPrepareExprList
ExecPrepareExprList:
.weak ExecPrepareQual
ExecPrepareQual:
.weak ExecProcNode
ExecProcNode:
.weak ExecProject
ExecProject:
.weak ExecQual
ExecQual:
.weak ExecQualAndReset
ExecQualAndReset:
.weak ExecReScan
ExecReScan:
.weak ExecReScanAgg
ExecReScanAgg:
.weak ExecReadyInterpretedExpr
ExecReadyInterpretedExpr:
.weak ExecReindex
ExecReindex:
.weak ExecRelationIsTargetRelation
ExecRelationIsTargetRelation:
.weak ExecResetTupleTable
ExecResetTupleTable:
.weak ExecRestrPos
ExecRestrPos:
.weak ExecScan
ExecScan:
.weak ExecScanReScan
ExecScanReScan:
.weak ExecSecLabelStmt
ExecSecLabelStmt:
.weak ExecSetExecProcNode
ExecSetExecProcNode:
.weak ExecSetSlotDescriptor
ExecSetSlotDescriptor:
.weak ExecSetTupleBound
ExecSetTupleBound:
.weak ExecSetVariableStmt
ExecSetVariableStmt:
.weak ExecShutdownNode
ExecShutdownNode:
.weak ExecSimpleRelationDelete
ExecSimpleRelationDelete:
.weak ExecSimpleRelationInsert
ExecSimpleRelationInsert:
.weak ExecSimpleRelationUpdate
ExecSimpleRelationUpdate:
.weak ExecStoreAllNullTuple
ExecStoreAllNullTuple:
.weak ExecStoreBufferHeapTuple
ExecStoreBufferHeapTuple:
.weak ExecStoreHeapTuple
ExecStoreHeapTuple:
.weak ExecStoreHeapTupleDatum
ExecStoreHeapTupleDatum:
.weak ExecStoreMinimalTuple
ExecStoreMinimalTuple:
.weak ExecStorePinnedBufferHeapTuple
ExecStorePinnedBufferHeapTuple:
.weak ExecStoreVirtualTuple
ExecStoreVirtualTuple:
.weak ExecSupportsBackwardScan
ExecSupportsBackwardScan:
.weak ExecSupportsMarkRestore
ExecSupportsMarkRestore:
.weak ExecTargetListLength
ExecTargetListLength:
.weak ExecTypeFromExprList
ExecTypeFromExprList:
.weak ExecTypeFromTL
ExecTypeFromTL:
.weak ExecTypeSetColNames
ExecTypeSetColNames:
.weak ExecUpdateLockMode
ExecUpdateLockMode:
.weak ExecVacuum
ExecVacuum:
.weak ExecWithCheckOptions
ExecWithCheckOptions:
.weak ExecuteCallStmt
ExecuteCallStmt:
.weak ExecuteDoStmt
ExecuteDoStmt:
.weak ExecuteGrantStmt
ExecuteGrantStmt:
.weak ExecuteQuery
ExecuteQuery:
.weak ExecuteTruncate
ExecuteTruncate:
.weak ExecuteTruncateGuts
ExecuteTruncateGuts:
.weak ExecutorEnd
ExecutorEnd:
.weak ExecutorFinish
ExecutorFinish:
.weak ExecutorRewind
ExecutorRewind:
.weak ExecutorRun
ExecutorRun:
.weak ExecutorStart
ExecutorStart:
.weak ExitParallelMode
ExitParallelMode:
.weak ExpandedRecordGetDatum
ExpandedRecordGetDatum:
.weak ExpandedRecordGetRODatum
ExpandedRecordGetRODatum:
.weak ExpireAllKnownAssignedTransactionIds
ExpireAllKnownAssignedTransactionIds:
.weak ExpireOldKnownAssignedTransactionIds
ExpireOldKnownAssignedTransactionIds:
.weak ExpireTreeKnownAssignedTransactionIds
ExpireTreeKnownAssignedTransactionIds:
.weak ExplainBeginOutput
ExplainBeginOutput:
.weak ExplainCloseGroup
ExplainCloseGroup:
.weak ExplainEndOutput
ExplainEndOutput:
.weak ExplainExecuteQuery
ExplainExecuteQuery:
.weak ExplainOnePlan
ExplainOnePlan:
.weak ExplainOneUtility
ExplainOneUtility:
.weak ExplainOpenGroup
ExplainOpenGroup:
.weak ExplainPrintJITSummary
ExplainPrintJITSummary:
.weak ExplainPrintPlan
ExplainPrintPlan:
.weak ExplainPrintTriggers
ExplainPrintTriggers:
.weak ExplainPropertyBool
ExplainPropertyBool:
.weak ExplainPropertyFloat
ExplainPropertyFloat:
.weak ExplainPropertyInteger
ExplainPropertyInteger:
.weak ExplainPropertyList
ExplainPropertyList:
.weak ExplainPropertyListNested
ExplainPropertyListNested:
.weak ExplainPropertyText
ExplainPropertyText:
.weak ExplainPropertyUInteger
ExplainPropertyUInteger:
.weak ExplainQuery
ExplainQuery:
.weak ExplainQueryParameters
ExplainQueryParameters:
.weak ExplainQueryText
ExplainQueryText:
.weak ExplainResultDesc
ExplainResultDesc:
.weak ExplainSeparatePlans
ExplainSeparatePlans:
.weak ExportSnapshot
ExportSnapshot:
.weak ExprEvalPushStep
ExprEvalPushStep:
.weak ExtendBufferedRel
ExtendBufferedRel:
.weak ExtendBufferedRelBy
ExtendBufferedRelBy:
.weak ExtendBufferedRelLocal
ExtendBufferedRelLocal:
.weak ExtendBufferedRelTo
ExtendBufferedRelTo:
.weak ExtendCLOG
ExtendCLOG:
.weak ExtendCommitTs
ExtendCommitTs:
.weak ExtendSUBTRANS
ExtendSUBTRANS:
.weak ExtractSetVariableArgs
ExtractSetVariableArgs:
.weak FPeq
FPeq:
.weak FPge
FPge:
.weak FPgt
FPgt:
.weak FPle
FPle:
.weak FPlt
FPlt:
.weak FPne
FPne:
.weak FetchPortalTargetList
FetchPortalTargetList:
.weak FetchPreparedStatement
FetchPreparedStatement:
.weak FetchPreparedStatementResultDesc
FetchPreparedStatementResultDesc:
.weak FetchPreparedStatementTargetList
FetchPreparedStatementTargetList:
.weak FetchStatementTargetList
FetchStatementTargetList:
.weak FileClose
FileClose:
.weak FileFallocate
FileFallocate:
.weak FileGetRawDesc
FileGetRawDesc:
.weak FileGetRawFlags
FileGetRawFlags:
.weak FileGetRawMode
FileGetRawMode:
.weak FilePathName
FilePathName:
.weak FilePrefetch
FilePrefetch:
.weak FileRead
FileRead:
.weak FileSetCreate
FileSetCreate:
.weak FileSetDelete
FileSetDelete:
.weak FileSetDeleteAll
FileSetDeleteAll:
.weak FileSetInit
FileSetInit:
.weak FileSetOpen
FileSetOpen:
.weak FileSize
FileSize:
.weak FileSync
FileSync:
.weak FileTruncate
FileTruncate:
.weak FileWrite
FileWrite:
.weak FileWriteback
FileWriteback:
.weak FileZero
FileZero:
.weak FindDefaultConversionProc
FindDefaultConversionProc:
.weak FindTriggerIncompatibleWithInheritance
FindTriggerIncompatibleWithInheritance:
.weak FindTupleHashEntry
FindTupleHashEntry:
.weak FinishWalRecovery
FinishWalRecovery:
.weak Float4GetDatum
Float4GetDatum:
.weak Float8GetDatum
Float8GetDatum:
.weak FloatExceptionHandler
FloatExceptionHandler:
.weak FlushDatabaseBuffers
FlushDatabaseBuffers:
.weak FlushErrorState
FlushErrorState:
.weak FlushOneBuffer
FlushOneBuffer:
.weak FlushRelationBuffers
FlushRelationBuffers:
.weak FlushRelationsAllBuffers
FlushRelationsAllBuffers:
.weak ForEachLWLockHeldByMe
ForEachLWLockHeldByMe:
.weak ForceSyncCommit
ForceSyncCommit:
.weak ForceTransactionIdLimitUpdate
ForceTransactionIdLimitUpdate:
.weak ForgetInplace_Inval
ForgetInplace_Inval:
.weak ForgetPortalSnapshots
ForgetPortalSnapshots:
.weak FormIndexDatum
FormIndexDatum:
.weak FreeAccessStrategy
FreeAccessStrategy:
.weak FreeBulkInsertState
FreeBulkInsertState:
.weak FreeCachedExpression
FreeCachedExpression:
.weak FreeConfigVariables
FreeConfigVariables:
.weak FreeDecodingContext
FreeDecodingContext:
.weak FreeDir
FreeDir:
.weak FreeErrorData
FreeErrorData:
.weak FreeExecutorState
FreeExecutorState:
.weak FreeExprContext
FreeExprContext:
.weak FreeFakeRelcacheEntry
FreeFakeRelcacheEntry:
.weak FreeFile
FreeFile:
.weak FreeQueryDesc
FreeQueryDesc:
.weak FreeSpaceMapPrepareTruncateRel
FreeSpaceMapPrepareTruncateRel:
.weak FreeSpaceMapVacuum
FreeSpaceMapVacuum:
.weak FreeSpaceMapVacuumRange
FreeSpaceMapVacuumRange:
.weak FreeTriggerDesc
FreeTriggerDesc:
.weak FreeTupleDesc
FreeTupleDesc:
.weak FreeWaitEventSet
FreeWaitEventSet:
.weak FreeWaitEventSetAfterFork
FreeWaitEventSetAfterFork:
.weak FullTransactionIdAdvance
FullTransactionIdAdvance:
.weak FullTransactionIdFromEpochAndXid
FullTransactionIdFromEpochAndXid:
.weak FullTransactionIdFromU64
FullTransactionIdFromU64:
.weak FullTransactionIdNewer
FullTransactionIdNewer:
.weak FullTransactionIdRetreat
FullTransactionIdRetreat:
.weak FuncnameGetCandidates
FuncnameGetCandidates:
.weak FunctionCall0Coll
FunctionCall0Coll:
.weak FunctionCall1Coll
FunctionCall1Coll:
.weak FunctionCall2Coll
FunctionCall2Coll:
.weak FunctionCall3Coll
FunctionCall3Coll:
.weak FunctionCall4Coll
FunctionCall4Coll:
.weak FunctionCall5Coll
FunctionCall5Coll:
.weak FunctionCall6Coll
FunctionCall6Coll:
.weak FunctionCall7Coll
FunctionCall7Coll:
.weak FunctionCall8Coll
FunctionCall8Coll:
.weak FunctionCall9Coll
FunctionCall9Coll:
.weak FunctionIsVisible
FunctionIsVisible:
.weak GUCArrayAdd
GUCArrayAdd:
.weak GUCArrayDelete
GUCArrayDelete:
.weak GUCArrayReset
GUCArrayReset:
.weak GUC_check_errcode
GUC_check_errcode:
.weak GenerateTypeDependencies
GenerateTypeDependencies:
.weak GenerationContextCreate
GenerationContextCreate:
.weak GenericXLogAbort
GenericXLogAbort:
.weak GenericXLogFinish
GenericXLogFinish:
.weak GenericXLogRegisterBuffer
GenericXLogRegisterBuffer:
.weak GenericXLogStart
GenericXLogStart:
.weak GetAccessStrategy
GetAccessStrategy:
.weak GetAccessStrategyBufferCount
GetAccessStrategyBufferCount:
.weak GetAccessStrategyWithSize
GetAccessStrategyWithSize:
.weak GetActiveSnapshot
GetActiveSnapshot:
.weak GetActiveWalLevelOnStandby
GetActiveWalLevelOnStandby:
.weak GetAllSchemaPublicationRelations
GetAllSchemaPublicationRelations:
.weak GetAllTablesPublicationRelations
GetAllTablesPublicationRelations:
.weak GetAllTablesPublications
GetAllTablesPublications:
.weak GetAttributeByName
GetAttributeByName:
.weak GetAttributeByNum
GetAttributeByNum:
.weak GetAuthenticatedUserId
GetAuthenticatedUserId:
.weak GetAuthenticatedUserIsSuperuser
GetAuthenticatedUserIsSuperuser:
.weak GetBackendTypeDesc
GetBackendTypeDesc:
.weak GetBackgroundWorkerPid
GetBackgroundWorkerPid:
.weak GetBackgroundWorkerTypeByPid
GetBackgroundWorkerTypeByPid:
.weak GetBlockerStatusData
GetBlockerStatusData:
.weak GetBlockingAutoVacuumPgproc
GetBlockingAutoVacuumPgproc:
.weak GetBufferDescriptor
GetBufferDescriptor:
.weak GetBulkInsertState
GetBulkInsertState:
.weak GetCTEForRTE
GetCTEForRTE:
.weak GetCachedExpression
GetCachedExpression:
.weak GetCachedPlan
GetCachedPlan:
.weak GetCatCacheHashValue
GetCatCacheHashValue:
.weak GetCatalogSnapshot
GetCatalogSnapshot:
.weak GetColumnDefCollation
GetColumnDefCollation:
.weak GetCommandLogLevel
GetCommandLogLevel:
.weak GetCommandTagEnum
GetCommandTagEnum:
.weak GetCommandTagName
GetCommandTagName:
.weak GetCommandTagNameAndLen
GetCommandTagNameAndLen:
.weak GetComment
GetComment:
.weak GetConfigOption
GetConfigOption:
.weak GetConfigOptionByName
GetConfigOptionByName:
.weak GetConfigOptionFlags
GetConfigOptionFlags:
.weak GetConfigOptionResetString
GetConfigOptionResetString:
.weak GetConflictingVirtualXIDs
GetConflictingVirtualXIDs:
.weak GetCurrentChunkReplayStartTime
GetCurrentChunkReplayStartTime:
.weak GetCurrentCommandId
GetCurrentCommandId:
.weak GetCurrentDateTime
GetCurrentDateTime:
.weak GetCurrentFullTransactionId
GetCurrentFullTransactionId:
.weak GetCurrentFullTransactionIdIfAny
GetCurrentFullTransactionIdIfAny:
.weak GetCurrentReplayRecPtr
GetCurrentReplayRecPtr:
.weak GetCurrentRoleId
GetCurrentRoleId:
.weak GetCurrentStatementStartTimestamp
GetCurrentStatementStartTimestamp:
.weak GetCurrentSubTransactionId
GetCurrentSubTransactionId:
.weak GetCurrentTimeUsec
GetCurrentTimeUsec:
.weak GetCurrentTimestamp
GetCurrentTimestamp:
.weak GetCurrentTransactionId
GetCurrentTransactionId:
.weak GetCurrentTransactionIdIfAny
GetCurrentTransactionIdIfAny:
.weak GetCurrentTransactionNestLevel
GetCurrentTransactionNestLevel:
.weak GetCurrentTransactionStartTimestamp
GetCurrentTransactionStartTimestamp:
.weak GetCurrentTransactionStopTimestamp
GetCurrentTransactionStopTimestamp:
.weak GetCurrentVirtualXIDs
GetCurrentVirtualXIDs:
.weak GetCustomScanMethods
GetCustomScanMethods:
.weak GetDatabaseEncoding
GetDatabaseEncoding:
.weak GetDatabaseEncodingName
GetDatabaseEncodingName:
.weak GetDatabasePath
GetDatabasePath:
.weak GetDefaultOpClass
GetDefaultOpClass:
.weak GetDefaultTablespace
GetDefaultTablespace:
.weak GetEpochTime
GetEpochTime:
.weak GetErrorContextStack
GetErrorContextStack:
.weak GetExistingLocalJoinPath
GetExistingLocalJoinPath:
.weak GetExtensibleNodeMethods
GetExtensibleNodeMethods:
.weak GetFakeLSNForUnloggedRel
GetFakeLSNForUnloggedRel:
.weak GetFdwRoutine
GetFdwRoutine:
.weak GetFdwRoutineByRelId
GetFdwRoutineByRelId:
.weak GetFdwRoutineByServerId
GetFdwRoutineByServerId:
.weak GetFdwRoutineForRelation
GetFdwRoutineForRelation:
.weak GetFlushRecPtr
GetFlushRecPtr:
.weak GetForeignColumnOptions
GetForeignColumnOptions:
.weak GetForeignDataWrapper
GetForeignDataWrapper:
.weak GetForeignDataWrapperByName
GetForeignDataWrapperByName:
.weak GetForeignDataWrapperExtended
GetForeignDataWrapperExtended:
.weak GetForeignServer
GetForeignServer:
.weak GetForeignServerByName
GetForeignServerByName:
.weak GetForeignServerExtended
GetForeignServerExtended:
.weak GetForeignServerIdByRelId
GetForeignServerIdByRelId:
.weak GetForeignTable
GetForeignTable:
.weak GetFreeIndexPage
GetFreeIndexPage:
.weak GetFullPageWriteInfo
GetFullPageWriteInfo:
.weak GetHeapamTableAmRoutine
GetHeapamTableAmRoutine:
.weak GetIndexAmRoutine
GetIndexAmRoutine:
.weak GetIndexAmRoutineByAmId
GetIndexAmRoutineByAmId:
.weak GetInsertRecPtr
GetInsertRecPtr:
.weak GetLWLockIdentifier
GetLWLockIdentifier:
.weak GetLastImportantRecPtr
GetLastImportantRecPtr:
.weak GetLastSegSwitchData
GetLastSegSwitchData:
.weak GetLatestCommitTsData
GetLatestCommitTsData:
.weak GetLatestSnapshot
GetLatestSnapshot:
.weak GetLatestXTime
GetLatestXTime:
.weak GetLocalBufferDescriptor
GetLocalBufferDescriptor:
.weak GetLockConflicts
GetLockConflicts:
.weak GetLockNameFromTagType
GetLockNameFromTagType:
.weak GetLockStatusData
GetLockStatusData:
.weak GetLockTagsMethodTable
GetLockTagsMethodTable:
.weak GetLockmodeName
GetLockmodeName:
.weak GetLocksMethodTable
GetLocksMethodTable:
.weak GetMaxSnapshotSubxidCount
GetMaxSnapshotSubxidCount:
.weak GetMaxSnapshotXidCount
GetMaxSnapshotXidCount:
.weak GetMemoryChunkSpace
GetMemoryChunkSpace:
.weak GetMessageEncoding
GetMessageEncoding:
.weak GetMockAuthenticationNonce
GetMockAuthenticationNonce:
.weak GetMultiXactIdMembers
GetMultiXactIdMembers:
.weak GetNSItemByRangeTablePosn
GetNSItemByRangeTablePosn:
.weak GetNamedLWLockTranche
GetNamedLWLockTranche:
.weak GetNewObjectId
GetNewObjectId:
.weak GetNewOidWithIndex
GetNewOidWithIndex:
.weak GetNewRelFileNumber
GetNewRelFileNumber:
.weak GetNewTransactionId
GetNewTransactionId:
.weak GetNextTempTableSpace
GetNextTempTableSpace:
.weak GetNonHistoricCatalogSnapshot
GetNonHistoricCatalogSnapshot:
.weak GetNumRegisteredWaitEvents
GetNumRegisteredWaitEvents:
.weak GetOldSnapshotThresholdTimestamp
GetOldSnapshotThresholdTimestamp:
.weak GetOldestActiveTransactionId
GetOldestActiveTransactionId:
.weak GetOldestMultiXactId
GetOldestMultiXactId:
.weak GetOldestNonRemovableTransactionId
GetOldestNonRemovableTransactionId:
.weak GetOldestRestartPoint
GetOldestRestartPoint:
.weak GetOldestSafeDecodingTransactionId
GetOldestSafeDecodingTransactionId:
.weak GetOldestSnapshot
GetOldestSnapshot:
.weak GetOldestTransactionIdConsideredRunning
GetOldestTransactionIdConsideredRunning:
.weak GetOuterUserId
GetOuterUserId:
.weak GetOverrideSearchPath
GetOverrideSearchPath:
.weak GetPGVariable
GetPGVariable:
.weak GetPGVariableResultDesc
GetPGVariableResultDesc:
.weak GetPageWithFreeSpace
GetPageWithFreeSpace:
.weak GetPortalByName
GetPortalByName:
.weak GetPubPartitionOptionRelations
GetPubPartitionOptionRelations:
.weak GetPublication
GetPublication:
.weak GetPublicationByName
GetPublicationByName:
.weak GetPublicationRelations
GetPublicationRelations:
.weak GetPublicationSchemas
GetPublicationSchemas:
.weak GetRTEByRangeTablePosn
GetRTEByRangeTablePosn:
.weak GetRecordedFreeSpace
GetRecordedFreeSpace:
.weak GetRecoveryPauseState
GetRecoveryPauseState:
.weak GetRecoveryState
GetRecoveryState:
.weak GetRedoRecPtr
GetRedoRecPtr:
.weak GetRelationPath
GetRelationPath:
.weak GetRelationPublications
GetRelationPublications:
.weak GetReplicationApplyDelay
GetReplicationApplyDelay:
.weak GetReplicationHorizons
GetReplicationHorizons:
.weak GetReplicationTransferLatency
GetReplicationTransferLatency:
.weak GetRmgr
GetRmgr:
.weak GetRunningTransactionData
GetRunningTransactionData:
.weak GetRunningTransactionLocks
GetRunningTransactionLocks:
.weak GetSQLCurrentDate
GetSQLCurrentDate:
.weak GetSQLCurrentTime
GetSQLCurrentTime:
.weak GetSQLCurrentTimestamp
GetSQLCurrentTimestamp:
.weak GetSQLLocalTime
GetSQLLocalTime:
.weak GetSQLLocalTimestamp
GetSQLLocalTimestamp:
.weak GetScanKeyword
GetScanKeyword:
.weak GetSchemaPublicationRelations
GetSchemaPublicationRelations:
.weak GetSchemaPublications
GetSchemaPublications:
.weak GetSecurityLabel
GetSecurityLabel:
.weak GetSessionUserId
GetSessionUserId:
.weak GetSessionUserIsSuperuser
GetSessionUserIsSuperuser:
.weak GetSnapshotCurrentTimestamp
GetSnapshotCurrentTimestamp:
.weak GetSnapshotData
GetSnapshotData:
.weak GetStableLatestTransactionId
GetStableLatestTransactionId:
.weak GetStartupBufferPinWaitBufId
GetStartupBufferPinWaitBufId:
.weak GetSysCacheHashValue
GetSysCacheHashValue:
.weak GetSysCacheOid
GetSysCacheOid:
.weak GetSystemIdentifier
GetSystemIdentifier:
.weak GetSystemUser
GetSystemUser:
.weak GetTableAmRoutine
GetTableAmRoutine:
.weak GetTempNamespaceBackendId
GetTempNamespaceBackendId:
.weak GetTempNamespaceState
GetTempNamespaceState:
.weak GetTempTablespaces
GetTempTablespaces:
.weak GetTempToastNamespace
GetTempToastNamespace:
.weak GetTopFullTransactionId
GetTopFullTransactionId:
.weak GetTopFullTransactionIdIfAny
GetTopFullTransactionIdIfAny:
.weak GetTopMostAncestorInPublication
GetTopMostAncestorInPublication:
.weak GetTopTransactionId
GetTopTransactionId:
.weak GetTopTransactionIdIfAny
GetTopTransactionIdIfAny:
.weak GetTransactionSnapshot
GetTransactionSnapshot:
.weak GetTsmRoutine
GetTsmRoutine:
.weak GetUserId
GetUserId:
.weak GetUserIdAndContext
GetUserIdAndContext:
.weak GetUserIdAndSecContext
GetUserIdAndSecContext:
.weak GetUserMapping
GetUserMapping:
.weak GetUserNameFromId
GetUserNameFromId:
.weak GetVirtualXIDsDelayingChkpt
GetVirtualXIDsDelayingChkpt:
.weak GetWALAvailability
GetWALAvailability:
.weak GetWALInsertionTimeLine
GetWALInsertionTimeLine:
.weak GetWALInsertionTimeLineIfSet
GetWALInsertionTimeLineIfSet:
.weak GetWalRcvFlushRecPtr
GetWalRcvFlushRecPtr:
.weak GetWalRcvWriteRecPtr
GetWalRcvWriteRecPtr:
.weak GetXLogInsertEndRecPtr
GetXLogInsertEndRecPtr:
.weak GetXLogInsertRecPtr
GetXLogInsertRecPtr:
.weak GetXLogReceiptTime
GetXLogReceiptTime:
.weak GetXLogReplayRecPtr
GetXLogReplayRecPtr:
.weak GetXLogWriteRecPtr
GetXLogWriteRecPtr:
.weak GinTernaryValueGetDatum
GinTernaryValueGetDatum:
.weak GistPageGetDeleteXid
GistPageGetDeleteXid:
.weak GistPageSetDeleted
GistPageSetDeleted:
.weak GlobalVisCheckRemovableFullXid
GlobalVisCheckRemovableFullXid:
.weak GlobalVisCheckRemovableXid
GlobalVisCheckRemovableXid:
.weak GlobalVisTestFor
GlobalVisTestFor:
.weak GlobalVisTestIsRemovableFullXid
GlobalVisTestIsRemovableFullXid:
.weak GlobalVisTestIsRemovableXid
GlobalVisTestIsRemovableXid:
.weak GlobalVisTestNonRemovableFullHorizon
GlobalVisTestNonRemovableFullHorizon:
.weak GlobalVisTestNonRemovableHorizon
GlobalVisTestNonRemovableHorizon:
.weak GrantAwaitedLock
GrantAwaitedLock:
.weak GrantLock
GrantLock:
.weak GrantRole
GrantRole:
.weak HandleCatchupInterrupt
HandleCatchupInterrupt:
.weak HandleLogMemoryContextInterrupt
HandleLogMemoryContextInterrupt:
.weak HandleMainLoopInterrupts
HandleMainLoopInterrupts:
.weak HandleParallelApplyMessageInterrupt
HandleParallelApplyMessageInterrupt:
.weak HandleParallelApplyMessages
HandleParallelApplyMessages:
.weak HandleParallelMessageInterrupt
HandleParallelMessageInterrupt:
.weak HandleParallelMessages
HandleParallelMessages:
.weak HandleRecoveryConflictInterrupt
HandleRecoveryConflictInterrupt:
.weak HandleWalSndInitStopping
HandleWalSndInitStopping:
.weak HaveNFreeProcs
HaveNFreeProcs:
.weak HaveRegisteredOrActiveSnapshot
HaveRegisteredOrActiveSnapshot:
.weak HaveVirtualXIDsDelayingChkpt
HaveVirtualXIDsDelayingChkpt:
.weak HeapCheckForSerializableConflictOut
HeapCheckForSerializableConflictOut:
.weak HeapTupleGetDatum
HeapTupleGetDatum:
.weak HeapTupleGetUpdateXid
HeapTupleGetUpdateXid:
.weak HeapTupleHeaderAdjustCmax
HeapTupleHeaderAdjustCmax:
.weak HeapTupleHeaderGetCmax
HeapTupleHeaderGetCmax:
.weak HeapTupleHeaderGetCmin
HeapTupleHeaderGetCmin:
.weak HeapTupleHeaderGetDatum
HeapTupleHeaderGetDatum:
.weak HeapTupleHeaderIsOnlyLocked
HeapTupleHeaderIsOnlyLocked:
.weak HeapTupleIsSurelyDead
HeapTupleIsSurelyDead:
.weak HeapTupleSatisfiesUpdate
HeapTupleSatisfiesUpdate:
.weak HeapTupleSatisfiesVacuum
HeapTupleSatisfiesVacuum:
.weak HeapTupleSatisfiesVacuumHorizon
HeapTupleSatisfiesVacuumHorizon:
.weak HeapTupleSatisfiesVisibility
HeapTupleSatisfiesVisibility:
.weak HeapTupleSetHintBits
HeapTupleSetHintBits:
.weak HistoricSnapshotActive
HistoricSnapshotActive:
.weak HistoricSnapshotGetTupleCids
HistoricSnapshotGetTupleCids:
.weak HoldPinnedPortals
HoldPinnedPortals:
.weak HoldingBufferPinThatDelaysRecovery
HoldingBufferPinThatDelaysRecovery:
.weak HotStandbyActive
HotStandbyActive:
.weak IOContextForStrategy
IOContextForStrategy:
.weak ImportForeignSchema
ImportForeignSchema:
.weak ImportSnapshot
ImportSnapshot:
.weak InLocalUserIdChange
InLocalUserIdChange:
.weak InNoForceRLSOperation
InNoForceRLSOperation:
.weak InSecurityRestrictedOperation
InSecurityRestrictedOperation:
.weak IncrBufferRefCount
IncrBufferRefCount:
.weak IncrTupleDescRefCount
IncrTupleDescRefCount:
.weak IncrementVarSublevelsUp
IncrementVarSublevelsUp:
.weak IncrementVarSublevelsUp_rtable
IncrementVarSublevelsUp_rtable:
.weak IndexFreeSpaceMapVacuum
IndexFreeSpaceMapVacuum:
.weak IndexGetRelation
IndexGetRelation:
.weak IndexInfoFindDataOffset
IndexInfoFindDataOffset:
.weak IndexScanEnd
IndexScanEnd:
.weak IndexSetParentIndex
IndexSetParentIndex:
.weak InitAuxiliaryProcess
InitAuxiliaryProcess:
.weak InitBufTable
InitBufTable:
.weak InitBufferPool
InitBufferPool:
.weak InitBufferPoolAccess
InitBufferPoolAccess:
.weak InitBufferTag
InitBufferTag:
.weak InitCatCache
InitCatCache:
.weak InitCatCachePhase2
InitCatCachePhase2:
.weak InitCatalogCache
InitCatalogCache:
.weak InitCatalogCachePhase2
InitCatalogCachePhase2:
.weak InitDeadLockChecking
InitDeadLockChecking:
.weak InitDomainConstraintRef
InitDomainConstraintRef:
.weak InitFileAccess
InitFileAccess:
.weak InitLWLockAccess
InitLWLockAccess:
.weak InitLatch
InitLatch:
.weak InitLocks
InitLocks:
.weak InitMaterializedSRF
InitMaterializedSRF:
.weak InitPlanCache
InitPlanCache:
.weak InitPostgres
InitPostgres:
.weak InitPostmasterChild
InitPostmasterChild:
.weak InitProcGlobal
InitProcGlobal:
.weak InitProcess
InitProcess:
.weak InitProcessGlobals
InitProcessGlobals:
.weak InitProcessLocalLatch
InitProcessLocalLatch:
.weak InitProcessPhase2
InitProcessPhase2:
.weak InitRecoveryTransactionEnvironment
InitRecoveryTransactionEnvironment:
.weak InitResultRelInfo
InitResultRelInfo:
.weak InitSharedLatch
InitSharedLatch:
.weak InitShmemAccess
InitShmemAccess:
.weak InitShmemAllocation
InitShmemAllocation:
.weak InitShmemIndex
InitShmemIndex:
.weak InitStandaloneProcess
InitStandaloneProcess:
.weak InitSync
InitSync:
.weak InitTemporaryFileAccess
InitTemporaryFileAccess:
.weak InitWalRecovery
InitWalRecovery:
.weak InitWalSender
InitWalSender:
.weak InitXLogInsert
InitXLogInsert:
.weak InitializeClientEncoding
InitializeClientEncoding:
.weak InitializeGUCOptions
InitializeGUCOptions:
.weak InitializeLatchSupport
InitializeLatchSupport:
.weak InitializeLatchWaitSet
InitializeLatchWaitSet:
.weak InitializeMaxBackends
InitializeMaxBackends:
.weak InitializeParallelDSM
InitializeParallelDSM:
.weak InitializeQueryCompletion
InitializeQueryCompletion:
.weak InitializeSearchPath
InitializeSearchPath:
.weak InitializeSessionUserId
InitializeSessionUserId:
.weak InitializeSessionUserIdStandalone
InitializeSessionUserIdStandalone:
.weak InitializeShmemGUCs
InitializeShmemGUCs:
.weak InitializeSystemUser
InitializeSystemUser:
.weak InitializeWalConsistencyChecking
InitializeWalConsistencyChecking:
.weak InputFunctionCall
InputFunctionCall:
.weak InputFunctionCallSafe
InputFunctionCallSafe:
.weak InsertExtensionTuple
InsertExtensionTuple:
.weak InsertPgAttributeTuples
InsertPgAttributeTuples:
.weak InsertPgClassTuple
InsertPgClassTuple:
.weak InstallTimeZoneAbbrevs
InstallTimeZoneAbbrevs:
.weak InstrAccumParallelQuery
InstrAccumParallelQuery:
.weak InstrAggNode
InstrAggNode:
.weak InstrAlloc
InstrAlloc:
.weak InstrEndLoop
InstrEndLoop:
.weak InstrEndParallelQuery
InstrEndParallelQuery:
.weak InstrInit
InstrInit:
.weak InstrJitAgg
InstrJitAgg:
.weak InstrStartNode
InstrStartNode:
.weak InstrStartParallelQuery
InstrStartParallelQuery:
.weak InstrStopNode
InstrStopNode:
.weak InstrUpdateTupleCount
InstrUpdateTupleCount:
.weak Int16GetDatum
Int16GetDatum:
.weak Int32GetDatum
Int32GetDatum:
.weak Int64GetDatum
Int64GetDatum:
.weak Int8GetDatum
Int8GetDatum:
.weak IntervalPGetDatum
IntervalPGetDatum:
.weak InvalidateCatalogSnapshot
InvalidateCatalogSnapshot:
.weak InvalidateCatalogSnapshotConditionally
InvalidateCatalogSnapshotConditionally:
.weak InvalidateObsoleteReplicationSlots
InvalidateObsoleteReplicationSlots:
.weak InvalidatePublicationRels
InvalidatePublicationRels:
.weak InvalidateSystemCaches
InvalidateSystemCaches:
.weak InvalidateSystemCachesExtended
InvalidateSystemCachesExtended:
.weak IsAbortedTransactionBlockState
IsAbortedTransactionBlockState:
.weak IsBackendPid
IsBackendPid:
.weak IsBackupHistoryFileName
IsBackupHistoryFileName:
.weak IsBinaryCoercible
IsBinaryCoercible:
.weak IsBinaryCoercibleWithCast
IsBinaryCoercibleWithCast:
.weak IsBufferCleanupOK
IsBufferCleanupOK:
.weak IsCatalogNamespace
IsCatalogNamespace:
.weak IsCatalogRelation
IsCatalogRelation:
.weak IsCatalogRelationOid
IsCatalogRelationOid:
.weak IsImportableForeignTable
IsImportableForeignTable:
.weak IsInParallelMode
IsInParallelMode:
.weak IsInTransactionBlock
IsInTransactionBlock:
.weak IsInplaceUpdateOid
IsInplaceUpdateOid:
.weak IsInplaceUpdateRelation
IsInplaceUpdateRelation:
.weak IsInstallXLogFileSegmentActive
IsInstallXLogFileSegmentActive:
.weak IsLogicalParallelApplyWorker
IsLogicalParallelApplyWorker:
.weak IsLogicalWorker
IsLogicalWorker:
.weak IsPartialXLogFileName
IsPartialXLogFileName:
.weak IsPinnedObject
IsPinnedObject:
.weak IsPreferredType
IsPreferredType:
.weak IsReservedName
IsReservedName:
.weak IsSharedRelation
IsSharedRelation:
.weak IsSubTransaction
IsSubTransaction:
.weak IsSubxactTopXidLogPending
IsSubxactTopXidLogPending:
.weak IsSystemClass
IsSystemClass:
.weak IsSystemRelation
IsSystemRelation:
.weak IsTLHistoryFileName
IsTLHistoryFileName:
.weak IsThereFunctionInNamespace
IsThereFunctionInNamespace:
.weak IsThereOpClassInNamespace
IsThereOpClassInNamespace:
.weak IsThereOpFamilyInNamespace
IsThereOpFamilyInNamespace:
.weak IsToastClass
IsToastClass:
.weak IsToastNamespace
IsToastNamespace:
.weak IsToastRelation
IsToastRelation:
.weak IsTransactionBlock
IsTransactionBlock:
.weak IsTransactionOrTransactionBlock
IsTransactionOrTransactionBlock:
.weak IsTransactionState
IsTransactionState:
.weak IsWaitingForLock
IsWaitingForLock:
.weak IsXLogFileName
IsXLogFileName:
.weak IssuePendingWritebacks
IssuePendingWritebacks:
.weak ItemPointerCompare
ItemPointerCompare:
.weak ItemPointerCopy
ItemPointerCopy:
.weak ItemPointerDec
ItemPointerDec:
.weak ItemPointerEquals
ItemPointerEquals:
.weak ItemPointerGetBlockNumber
ItemPointerGetBlockNumber:
.weak ItemPointerGetBlockNumberNoCheck
ItemPointerGetBlockNumberNoCheck:
.weak ItemPointerGetDatum
ItemPointerGetDatum:
.weak ItemPointerGetOffsetNumber
ItemPointerGetOffsetNumber:
.weak ItemPointerGetOffsetNumberNoCheck
ItemPointerGetOffsetNumberNoCheck:
.weak ItemPointerInc
ItemPointerInc:
.weak ItemPointerIndicatesMovedPartitions
ItemPointerIndicatesMovedPartitions:
.weak ItemPointerIsValid
ItemPointerIsValid:
.weak ItemPointerSet
ItemPointerSet:
.weak ItemPointerSetBlockNumber
ItemPointerSetBlockNumber:
.weak ItemPointerSetInvalid
ItemPointerSetInvalid:
.weak ItemPointerSetMovedPartitions
ItemPointerSetMovedPartitions:
.weak ItemPointerSetOffsetNumber
ItemPointerSetOffsetNumber:
.weak JsonEncodeDateTime
JsonEncodeDateTime:
.weak JsonbDeepContains
JsonbDeepContains:
.weak JsonbExtractScalar
JsonbExtractScalar:
.weak JsonbHashScalarValue
JsonbHashScalarValue:
.weak JsonbHashScalarValueExtended
JsonbHashScalarValueExtended:
.weak JsonbIteratorInit
JsonbIteratorInit:
.weak JsonbIteratorNext
JsonbIteratorNext:
.weak JsonbPGetDatum
JsonbPGetDatum:
.weak JsonbToCString
JsonbToCString:
.weak JsonbToCStringIndent
JsonbToCStringIndent:
.weak JsonbToJsonbValue
JsonbToJsonbValue:
.weak JsonbTypeName
JsonbTypeName:
.weak JsonbValueToJsonb
JsonbValueToJsonb:
.weak JumbleQuery
JumbleQuery:
.weak KnownAssignedTransactionIdsIdleMaintenance
KnownAssignedTransactionIdsIdleMaintenance:
.weak LCS_asString
LCS_asString:
.weak LWLockAcquire
LWLockAcquire:
.weak LWLockAcquireOrWait
LWLockAcquireOrWait:
.weak LWLockAnyHeldByMe
LWLockAnyHeldByMe:
.weak LWLockConditionalAcquire
LWLockConditionalAcquire:
.weak LWLockHeldByMe
LWLockHeldByMe:
.weak LWLockHeldByMeInMode
LWLockHeldByMeInMode:
.weak LWLockInitialize
LWLockInitialize:
.weak LWLockNewTrancheId
LWLockNewTrancheId:
.weak LWLockRegisterTranche
LWLockRegisterTranche:
.weak LWLockRelease
LWLockRelease:
.weak LWLockReleaseAll
LWLockReleaseAll:
.weak LWLockReleaseClearVar
LWLockReleaseClearVar:
.weak LWLockShmemSize
LWLockShmemSize:
.weak LWLockUpdateVar
LWLockUpdateVar:
.weak LWLockWaitForVar
LWLockWaitForVar:
.weak LaunchParallelWorkers
LaunchParallelWorkers:
.weak LinePGetDatum
LinePGetDatum:
.weak LocalBufferAlloc
LocalBufferAlloc:
.weak LocalExecuteInvalidationMessage
LocalExecuteInvalidationMessage:
.weak LocalProcessControlFile
LocalProcessControlFile:
.weak LocalToUtf
LocalToUtf:
.weak LockAcquire
LockAcquire:
.weak LockAcquireExtended
LockAcquireExtended:
.weak LockApplyTransactionForSession
LockApplyTransactionForSession:
.weak LockBufHdr
LockBufHdr:
.weak LockBuffer
LockBuffer:
.weak LockBufferForCleanup
LockBufferForCleanup:
.weak LockCheckConflicts
LockCheckConflicts:
.weak LockDatabaseFrozenIds
LockDatabaseFrozenIds:
.weak LockDatabaseObject
LockDatabaseObject:
.weak LockErrorCleanup
LockErrorCleanup:
.weak LockHasWaiters
LockHasWaiters:
.weak LockHasWaitersRelation
LockHasWaitersRelation:
.weak LockHeldByMe
LockHeldByMe:
.weak LockOrStrongerHeldByMe
LockOrStrongerHeldByMe:
.weak LockPage
LockPage:
.weak LockReassignCurrentOwner
LockReassignCurrentOwner:
.weak LockRelation
LockRelation:
.weak LockRelationForExtension
LockRelationForExtension:
.weak LockRelationId
LockRelationId:
.weak LockRelationIdForSession
LockRelationIdForSession:
.weak LockRelationOid
LockRelationOid:
.weak LockRelease
LockRelease:
.weak LockReleaseAll
LockReleaseAll:
.weak LockReleaseCurrentOwner
LockReleaseCurrentOwner:
.weak LockReleaseSession
LockReleaseSession:
.weak LockSharedObject
LockSharedObject:
.weak LockSharedObjectForSession
LockSharedObjectForSession:
.weak LockShmemSize
LockShmemSize:
.weak LockTagHashCode
LockTagHashCode:
.weak LockTuple
LockTuple:
.weak LockWaiterCount
LockWaiterCount:
.weak LogAccessExclusiveLock
LogAccessExclusiveLock:
.weak LogAccessExclusiveLockPrepare
LogAccessExclusiveLockPrepare:
.weak LogLogicalInvalidations
LogLogicalInvalidations:
.weak LogRecoveryConflict
LogRecoveryConflict:
.weak LogStandbyInvalidations
LogStandbyInvalidations:
.weak LogStandbySnapshot
LogStandbySnapshot:
.weak LogicalConfirmReceivedLocation
LogicalConfirmReceivedLocation:
.weak LogicalIncreaseRestartDecodingForSlot
LogicalIncreaseRestartDecodingForSlot:
.weak LogicalIncreaseXminForSlot
LogicalIncreaseXminForSlot:
.weak LogicalRepWorkersWakeupAtCommit
LogicalRepWorkersWakeupAtCommit:
.weak LogicalTapeBackspace
LogicalTapeBackspace:
.weak LogicalTapeClose
LogicalTapeClose:
.weak LogicalTapeCreate
LogicalTapeCreate:
.weak LogicalTapeFreeze
LogicalTapeFreeze:
.weak LogicalTapeImport
LogicalTapeImport:
.weak LogicalTapeRead
LogicalTapeRead:
.weak LogicalTapeRewindForRead
LogicalTapeRewindForRead:
.weak LogicalTapeSeek
LogicalTapeSeek:
.weak LogicalTapeSetBlocks
LogicalTapeSetBlocks:
.weak LogicalTapeSetClose
LogicalTapeSetClose:
.weak LogicalTapeSetCreate
LogicalTapeSetCreate:
.weak LogicalTapeSetForgetFreeSpace
LogicalTapeSetForgetFreeSpace:
.weak LogicalTapeTell
LogicalTapeTell:
.weak LogicalTapeWrite
LogicalTapeWrite:
.weak LookupCollation
LookupCollation:
.weak LookupCreationNamespace
LookupCreationNamespace:
.weak LookupExplicitNamespace
LookupExplicitNamespace:
.weak LookupFuncName
LookupFuncName:
.weak LookupFuncWithArgs
LookupFuncWithArgs:
.weak LookupNamespaceNoError
LookupNamespaceNoError:
.weak LookupOperName
LookupOperName:
.weak LookupOperWithArgs
LookupOperWithArgs:
.weak LookupTupleHashEntry
LookupTupleHashEntry:
.weak LookupTupleHashEntryHash
LookupTupleHashEntryHash:
.weak LookupTypeName
LookupTypeName:
.weak LookupTypeNameExtended
LookupTypeNameExtended:
.weak LookupTypeNameOid
LookupTypeNameOid:
.weak LsegPGetDatum
LsegPGetDatum:
.weak MaintainOldSnapshotTimeMapping
MaintainOldSnapshotTimeMapping:
.weak MakeExpandedObjectReadOnlyInternal
MakeExpandedObjectReadOnlyInternal:
.weak MakePGDirectory
MakePGDirectory:
.weak MakePerTupleExprContext
MakePerTupleExprContext:
.weak MakeSingleTupleTableSlot
MakeSingleTupleTableSlot:
.weak MakeTransitionCaptureState
MakeTransitionCaptureState:
.weak MakeTupleTableSlot
MakeTupleTableSlot:
.weak MarkBufferDirty
MarkBufferDirty:
.weak MarkBufferDirtyHint
MarkBufferDirtyHint:
.weak MarkCurrentTransactionIdLoggedIfAny
MarkCurrentTransactionIdLoggedIfAny:
.weak MarkGUCPrefixReserved
MarkGUCPrefixReserved:
.weak MarkLocalBufferDirty
MarkLocalBufferDirty:
.weak MarkLockClear
MarkLockClear:
.weak MarkPortalActive
MarkPortalActive:
.weak MarkPortalDone
MarkPortalDone:
.weak MarkPortalFailed
MarkPortalFailed:
.weak MarkSubxactTopXidLogged
MarkSubxactTopXidLogged:
.weak MaxLivePostmasterChildren
MaxLivePostmasterChildren:
.weak MemoryContextAllocAligned
MemoryContextAllocAligned:
.weak MemoryContextAllocHuge
MemoryContextAllocHuge:
.weak MemoryContextAllocZeroAligned
MemoryContextAllocZeroAligned:
.weak MemoryContextAllowInCriticalSection
MemoryContextAllowInCriticalSection:
.weak MemoryContextDelete
MemoryContextDelete:
.weak MemoryContextDeleteChildren
MemoryContextDeleteChildren:
.weak MemoryContextGetParent
MemoryContextGetParent:
.weak MemoryContextInit
MemoryContextInit:
.weak MemoryContextIsEmpty
MemoryContextIsEmpty:
.weak MemoryContextMemAllocated
MemoryContextMemAllocated:
.weak MemoryContextReset
MemoryContextReset:
.weak MemoryContextResetChildren
MemoryContextResetChildren:
.weak MemoryContextResetOnly
MemoryContextResetOnly:
.weak MemoryContextSetIdentifier
MemoryContextSetIdentifier:
.weak MemoryContextSetParent
MemoryContextSetParent:
.weak MemoryContextStats
MemoryContextStats:
.weak MemoryContextStatsDetail
MemoryContextStatsDetail:
.weak MemoryContextStrdup
MemoryContextStrdup:
.weak MinimumActiveBackends
MinimumActiveBackends:
.weak ModifyWaitEvent
ModifyWaitEvent:
.weak MultiExecProcNode
MultiExecProcNode:
.weak MultiXactAdvanceNextMXact
MultiXactAdvanceNextMXact:
.weak MultiXactAdvanceOldest
MultiXactAdvanceOldest:
.weak MultiXactGetCheckptMulti
MultiXactGetCheckptMulti:
.weak MultiXactIdCreate
MultiXactIdCreate:
.weak MultiXactIdCreateFromMembers
MultiXactIdCreateFromMembers:
.weak MultiXactIdExpand
MultiXactIdExpand:
.weak MultiXactIdGetDatum
MultiXactIdGetDatum:
.weak MultiXactIdIsRunning
MultiXactIdIsRunning:
.weak MultiXactIdPrecedes
MultiXactIdPrecedes:
.weak MultiXactIdPrecedesOrEquals
MultiXactIdPrecedesOrEquals:
.weak MultiXactIdSetOldestMember
MultiXactIdSetOldestMember:
.weak MultiXactMemberFreezeThreshold
MultiXactMemberFreezeThreshold:
.weak MultiXactSetNextMXact
MultiXactSetNextMXact:
.weak MultiXactShmemInit
MultiXactShmemInit:
.weak MultiXactShmemSize
MultiXactShmemSize:
.weak NameGetDatum
NameGetDatum:
.weak NameListToQuotedString
NameListToQuotedString:
.weak NameListToString
NameListToString:
.weak NamespaceCreate
NamespaceCreate:
.weak NewExplainState
NewExplainState:
.weak NewGUCNestLevel
NewGUCNestLevel:
.weak NextCopyFrom
NextCopyFrom:
.weak NextCopyFromRawFields
NextCopyFromRawFields:
.weak NormalTransactionIdOlder
NormalTransactionIdOlder:
.weak NullCommand
NullCommand:
.weak NumRelids
NumRelids:
.weak NumericGetDatum
NumericGetDatum:
.weak ObjectIdGetDatum
ObjectIdGetDatum:
.weak OffsetVarNodes
OffsetVarNodes:
.weak OidFunctionCall0Coll
OidFunctionCall0Coll:
.weak OidFunctionCall1Coll
OidFunctionCall1Coll:
.weak OidFunctionCall2Coll
OidFunctionCall2Coll:
.weak OidFunctionCall3Coll
OidFunctionCall3Coll:
.weak OidFunctionCall4Coll
OidFunctionCall4Coll:
.weak OidFunctionCall5Coll
OidFunctionCall5Coll:
.weak OidFunctionCall6Coll
OidFunctionCall6Coll:
.weak OidFunctionCall7Coll
OidFunctionCall7Coll:
.weak OidFunctionCall8Coll
OidFunctionCall8Coll:
.weak OidFunctionCall9Coll
OidFunctionCall9Coll:
.weak OidInputFunctionCall
OidInputFunctionCall:
.weak OidOutputFunctionCall
OidOutputFunctionCall:
.weak OidReceiveFunctionCall
OidReceiveFunctionCall:
.weak OidSendFunctionCall
OidSendFunctionCall:
.weak OldSnapshotThresholdActive
OldSnapshotThresholdActive:
.weak OpclassIsVisible
OpclassIsVisible:
.weak OpclassnameGetOpcid
OpclassnameGetOpcid:
.weak OpenPipeStream
OpenPipeStream:
.weak OpenTemporaryFile
OpenTemporaryFile:
.weak OpenTransientFile
OpenTransientFile:
.weak OpenTransientFilePerm
OpenTransientFilePerm:
.weak OperatorCreate
OperatorCreate:
.weak OperatorIsVisible
OperatorIsVisible:
.weak OperatorUpd
OperatorUpd:
.weak OpernameGetCandidates
OpernameGetCandidates:
.weak OpernameGetOprid
OpernameGetOprid:
.weak OpfamilyIsVisible
OpfamilyIsVisible:
.weak OpfamilynameGetOpfid
OpfamilynameGetOpfid:
.weak OutputFunctionCall
OutputFunctionCall:
.weak OutputPluginPrepareWrite
OutputPluginPrepareWrite:
.weak OutputPluginUpdateProgress
OutputPluginUpdateProgress:
.weak OutputPluginWrite
OutputPluginWrite:
.weak OverrideSearchPathMatchesCurrent
OverrideSearchPathMatchesCurrent:
.weak OwnLatch
OwnLatch:
.weak PGReserveSemaphores
PGReserveSemaphores:
.weak PGSemaphoreCreate
PGSemaphoreCreate:
.weak PGSemaphoreLock
PGSemaphoreLock:
.weak PGSemaphoreReset
PGSemaphoreReset:
.weak PGSemaphoreShmemSize
PGSemaphoreShmemSize:
.weak PGSemaphoreTryLock
PGSemaphoreTryLock:
.weak PGSemaphoreUnlock
PGSemaphoreUnlock:
.weak PG_char_to_encoding
PG_char_to_encoding:
.weak PG_encoding_to_char
PG_encoding_to_char:
.weak PageAddItemExtended
PageAddItemExtended:
.weak PageClearAllVisible
PageClearAllVisible:
.weak PageClearFull
PageClearFull:
.weak PageClearHasFreeLinePointers
PageClearHasFreeLinePointers:
.weak PageGetContents
PageGetContents:
.weak PageGetExactFreeSpace
PageGetExactFreeSpace:
.weak PageGetFreeSpace
PageGetFreeSpace:
.weak PageGetFreeSpaceForMultipleTuples
PageGetFreeSpaceForMultipleTuples:
.weak PageGetHeapFreeSpace
PageGetHeapFreeSpace:
.weak PageGetItem
PageGetItem:
.weak PageGetItemId
PageGetItemId:
.weak PageGetLSN
PageGetLSN:
.weak PageGetMaxOffsetNumber
PageGetMaxOffsetNumber:
.weak PageGetPageLayoutVersion
PageGetPageLayoutVersion:
.weak PageGetPageSize
PageGetPageSize:
.weak PageGetSpecialPointer
PageGetSpecialPointer:
.weak PageGetSpecialSize
PageGetSpecialSize:
.weak PageGetTempPage
PageGetTempPage:
.weak PageGetTempPageCopy
PageGetTempPageCopy:
.weak PageGetTempPageCopySpecial
PageGetTempPageCopySpecial:
.weak PageHasFreeLinePointers
PageHasFreeLinePointers:
.weak PageIndexMultiDelete
PageIndexMultiDelete:
.weak PageIndexTupleDelete
PageIndexTupleDelete:
.weak PageIndexTupleDeleteNoCompact
PageIndexTupleDeleteNoCompact:
.weak PageIndexTupleOverwrite
PageIndexTupleOverwrite:
.weak PageInit
PageInit:
.weak PageIsAllVisible
PageIsAllVisible:
.weak PageIsEmpty
PageIsEmpty:
.weak PageIsFull
PageIsFull:
.weak PageIsNew
PageIsNew:
.weak PageIsVerifiedExtended
PageIsVerifiedExtended:
.weak PageRepairFragmentation
PageRepairFragmentation:
.weak PageRestoreTempPage
PageRestoreTempPage:
.weak PageSetAllVisible
PageSetAllVisible:
.weak PageSetChecksumCopy
PageSetChecksumCopy:
.weak PageSetChecksumInplace
PageSetChecksumInplace:
.weak PageSetFull
PageSetFull:
.weak PageSetHasFreeLinePointers
PageSetHasFreeLinePointers:
.weak PageSetLSN
PageSetLSN:
.weak PageSetPageSizeAndVersion
PageSetPageSizeAndVersion:
.weak PageTruncateLinePointerArray
PageTruncateLinePointerArray:
.weak PageXLogRecPtrGet
PageXLogRecPtrGet:
.weak ParallelApplyWorkerMain
ParallelApplyWorkerMain:
.weak ParallelContextActive
ParallelContextActive:
.weak ParallelWorkerMain
ParallelWorkerMain:
.weak ParallelWorkerReportLastRecEnd
ParallelWorkerReportLastRecEnd:
.weak ParamsErrorCallback
ParamsErrorCallback:
.weak ParseAbortRecord
ParseAbortRecord:
.weak ParseCommitRecord
ParseCommitRecord:
.weak ParseConfigDirectory
ParseConfigDirectory:
.weak ParseConfigFile
ParseConfigFile:
.weak ParseConfigFp
ParseConfigFp:
.weak ParseDateTime
ParseDateTime:
.weak ParseExprKindName
ParseExprKindName:
.weak ParseFuncOrColumn
ParseFuncOrColumn:
.weak ParseLongOption
ParseLongOption:
.weak ParsePrepareRecord
ParsePrepareRecord:
.weak PartConstraintImpliedByRelConstraint
PartConstraintImpliedByRelConstraint:
.weak PartitionDirectoryLookup
PartitionDirectoryLookup:
.weak PathNameCreateTemporaryDir
PathNameCreateTemporaryDir:
.weak PathNameCreateTemporaryFile
PathNameCreateTemporaryFile:
.weak PathNameDeleteTemporaryDir
PathNameDeleteTemporaryDir:
.weak PathNameDeleteTemporaryFile
PathNameDeleteTemporaryFile:
.weak PathNameOpenFile
PathNameOpenFile:
.weak PathNameOpenFilePerm
PathNameOpenFilePerm:
.weak PathNameOpenTemporaryFile
PathNameOpenTemporaryFile:
.weak PathPGetDatum
PathPGetDatum:
.weak PerformWalRecovery
PerformWalRecovery:
.weak PgArchCanRestart
PgArchCanRestart:
.weak PgArchForceDirScan
PgArchForceDirScan:
.weak PgArchShmemInit
PgArchShmemInit:
.weak PgArchShmemSize
PgArchShmemSize:
.weak PgArchWakeup
PgArchWakeup:
.weak PgArchiverMain
PgArchiverMain:
.weak PinLocalBuffer
PinLocalBuffer:
.weak PinPortal
PinPortal:
.weak PlannedStmtRequiresSnapshot
PlannedStmtRequiresSnapshot:
.weak PointPGetDatum
PointPGetDatum:
.weak PointerGetDatum
PointerGetDatum:
.weak PolygonPGetDatum
PolygonPGetDatum:
.weak PopActiveSnapshot
PopActiveSnapshot:
.weak PopOverrideSearchPath
PopOverrideSearchPath:
.weak PortalCreateHoldStore
PortalCreateHoldStore:
.weak PortalDefineQuery
PortalDefineQuery:
.weak PortalDrop
PortalDrop:
.weak PortalErrorCleanup
PortalErrorCleanup:
.weak PortalGetPrimaryStmt
PortalGetPrimaryStmt:
.weak PortalHashTableDeleteAll
PortalHashTableDeleteAll:
.weak PortalRun
PortalRun:
.weak PortalRunFetch
PortalRunFetch:
.weak PortalSetResultFormat
PortalSetResultFormat:
.weak PortalStart
PortalStart:
.weak PostPrepare_Inval
PostPrepare_Inval:
.weak PostPrepare_Locks
PostPrepare_Locks:
.weak PostPrepare_MultiXact
PostPrepare_MultiXact:
.weak PostPrepare_PgStat
PostPrepare_PgStat:
.weak PostPrepare_smgr
PostPrepare_smgr:
.weak PostgresMain
PostgresMain:
.weak PostgresSingleUserMain
PostgresSingleUserMain:
.weak PostmasterMain
PostmasterMain:
.weak PostmasterMarkPIDForWorkerNotify
PostmasterMarkPIDForWorkerNotify:
.weak PreCommit_Portals
PreCommit_Portals:
.weak PreCommit_on_commit_actions
PreCommit_on_commit_actions:
.weak PreInplace_Inval
PreInplace_Inval:
.weak PrefetchBuffer
PrefetchBuffer:
.weak PrefetchLocalBuffer
PrefetchLocalBuffer:
.weak PrefetchSharedBuffer
PrefetchSharedBuffer:
.weak PrepareClientEncoding
PrepareClientEncoding:
.weak PrepareQuery
PrepareQuery:
.weak PrepareSortSupportComparisonShim
PrepareSortSupportComparisonShim:
.weak PrepareSortSupportFromGistIndexRel
PrepareSortSupportFromGistIndexRel:
.weak PrepareSortSupportFromIndexRel
PrepareSortSupportFromIndexRel:
.weak PrepareSortSupportFromOrderingOp
PrepareSortSupportFromOrderingOp:
.weak PrepareTempTablespaces
PrepareTempTablespaces:
.weak PrepareToInvalidateCacheTuple
PrepareToInvalidateCacheTuple:
.weak PrepareTransactionBlock
PrepareTransactionBlock:
.weak PreventCommandDuringRecovery
PreventCommandDuringRecovery:
.weak PreventCommandIfParallelMode
PreventCommandIfParallelMode:
.weak PreventCommandIfReadOnly
PreventCommandIfReadOnly:
.weak PreventInTransactionBlock
PreventInTransactionBlock:
.weak PrintBufferLeakWarning
PrintBufferLeakWarning:
.weak PrintCatCacheLeakWarning
PrintCatCacheLeakWarning:
.weak PrintCatCacheListLeakWarning
PrintCatCacheListLeakWarning:
.weak ProcArrayAdd
ProcArrayAdd:
.weak ProcArrayApplyRecoveryInfo
ProcArrayApplyRecoveryInfo:
.weak ProcArrayApplyXidAssignment
ProcArrayApplyXidAssignment:
.weak ProcArrayClearTransaction
ProcArrayClearTransaction:
.weak ProcArrayEndTransaction
ProcArrayEndTransaction:
.weak ProcArrayGetReplicationSlotXmin
ProcArrayGetReplicationSlotXmin:
.weak ProcArrayInitRecovery
ProcArrayInitRecovery:
.weak ProcArrayInstallImportedXmin
ProcArrayInstallImportedXmin:
.weak ProcArrayInstallRestoredXmin
ProcArrayInstallRestoredXmin:
.weak ProcArrayRemove
ProcArrayRemove:
.weak ProcArraySetReplicationSlotXmin
ProcArraySetReplicationSlotXmin:
.weak ProcArrayShmemSize
ProcArrayShmemSize:
.weak ProcGlobalSemas
ProcGlobalSemas:
.weak ProcGlobalShmemSize
ProcGlobalShmemSize:
.weak ProcLockWakeup
ProcLockWakeup:
.weak ProcReleaseLocks
ProcReleaseLocks:
.weak ProcSendSignal
ProcSendSignal:
.weak ProcSignalInit
ProcSignalInit:
.weak ProcSignalShmemInit
ProcSignalShmemInit:
.weak ProcSignalShmemSize
ProcSignalShmemSize:
.weak ProcSleep
ProcSleep:
.weak ProcWaitForSignal
ProcWaitForSignal:
.weak ProcWakeup
ProcWakeup:
.weak ProcedureCreate
ProcedureCreate:
.weak ProcessBarrierSmgrRelease
ProcessBarrierSmgrRelease:
.weak ProcessCatchupInterrupt
ProcessCatchupInterrupt:
.weak ProcessClientReadInterrupt
ProcessClientReadInterrupt:
.weak ProcessClientWriteInterrupt
ProcessClientWriteInterrupt:
.weak ProcessCommittedInvalidationMessages
ProcessCommittedInvalidationMessages:
.weak ProcessConfigFile
ProcessConfigFile:
.weak ProcessCopyOptions
ProcessCopyOptions:
.weak ProcessGUCArray
ProcessGUCArray:
.weak ProcessInterrupts
ProcessInterrupts:
.weak ProcessLogMemoryContextInterrupt
ProcessLogMemoryContextInterrupt:
.weak ProcessProcSignalBarrier
ProcessProcSignalBarrier:
.weak ProcessSyncRequests
ProcessSyncRequests:
.weak ProcessUtility
ProcessUtility:
.weak ProcessUtilityForAlterTable
ProcessUtilityForAlterTable:
.weak ProcessWalRcvInterrupts
ProcessWalRcvInterrupts:
.weak PromoteIsTriggered
PromoteIsTriggered:
.weak PushActiveSnapshot
PushActiveSnapshot:
.weak PushActiveSnapshotWithLevel
PushActiveSnapshotWithLevel:
.weak PushCopiedSnapshot
PushCopiedSnapshot:
.weak PushOverrideSearchPath
PushOverrideSearchPath:
.weak QT2QTN
QT2QTN:
.weak QTN2QT
QTN2QT:
.weak QTNBinary
QTNBinary:
.weak QTNClearFlags
QTNClearFlags:
.weak QTNCopy
QTNCopy:
.weak QTNEq
QTNEq:
.weak QTNFree
QTNFree:
.weak QTNSort
QTNSort:
.weak QTNTernary
QTNTernary:
.weak QTNodeCompare
QTNodeCompare:
.weak QualifiedNameGetCreationNamespace
QualifiedNameGetCreationNamespace:
.weak QueryRewrite
QueryRewrite:
.weak RI_FKey_cascade_del
RI_FKey_cascade_del:
.weak RI_FKey_cascade_upd
RI_FKey_cascade_upd:
.weak RI_FKey_check_ins
RI_FKey_check_ins:
.weak RI_FKey_check_upd
RI_FKey_check_upd:
.weak RI_FKey_fk_upd_check_required
RI_FKey_fk_upd_check_required:
.weak RI_FKey_noaction_del
RI_FKey_noaction_del:
.weak RI_FKey_noaction_upd
RI_FKey_noaction_upd:
.weak RI_FKey_pk_upd_check_required
RI_FKey_pk_upd_check_required:
.weak RI_FKey_restrict_del
RI_FKey_restrict_del:
.weak RI_FKey_restrict_upd
RI_FKey_restrict_upd:
.weak RI_FKey_setdefault_del
RI_FKey_setdefault_del:
.weak RI_FKey_setdefault_upd
RI_FKey_setdefault_upd:
.weak RI_FKey_setnull_del
RI_FKey_setnull_del:
.weak RI_FKey_setnull_upd
RI_FKey_setnull_upd:
.weak RI_FKey_trigger_type
RI_FKey_trigger_type:
.weak RI_Initial_Check
RI_Initial_Check:
.weak RI_PartitionRemove_Check
RI_PartitionRemove_Check:
.weak RangeTypePGetDatum
RangeTypePGetDatum:
.weak RangeVarAdjustRelationPersistence
RangeVarAdjustRelationPersistence:
.weak RangeVarCallbackOwnsRelation
RangeVarCallbackOwnsRelation:
.weak RangeVarCallbackOwnsTable
RangeVarCallbackOwnsTable:
.weak RangeVarGetAndCheckCreationNamespace
RangeVarGetAndCheckCreationNamespace:
.weak RangeVarGetCreationNamespace
RangeVarGetCreationNamespace:
.weak RangeVarGetRelidExtended
RangeVarGetRelidExtended:
.weak ReScanExprContext
ReScanExprContext:
.weak ReThrowError
ReThrowError:
.weak ReachedEndOfBackup
ReachedEndOfBackup:
.weak ReadBuffer
ReadBuffer:
.weak ReadBufferExtended
ReadBufferExtended:
.weak ReadBufferWithoutRelcache
ReadBufferWithoutRelcache:
.weak ReadDir
ReadDir:
.weak ReadDirExtended
ReadDirExtended:
.weak ReadMultiXactIdRange
ReadMultiXactIdRange:
.weak ReadNextFullTransactionId
ReadNextFullTransactionId:
.weak ReadNextMultiXactId
ReadNextMultiXactId:
.weak ReadNextTransactionId
ReadNextTransactionId:
.weak ReadRecentBuffer
ReadRecentBuffer:
.weak ReadyForQuery
ReadyForQuery:
.weak ReassignOwnedObjects
ReassignOwnedObjects:
.weak ReceiveFunctionCall
ReceiveFunctionCall:
.weak ReceiveSharedInvalidMessages
ReceiveSharedInvalidMessages:
.weak RecheckDataDirLockFile
RecheckDataDirLockFile:
.weak RecordAndGetPageWithFreeSpace
RecordAndGetPageWithFreeSpace:
.weak RecordFreeIndexPage
RecordFreeIndexPage:
.weak RecordKnownAssignedTransactionIds
RecordKnownAssignedTransactionIds:
.weak RecordPageWithFreeSpace
RecordPageWithFreeSpace:
.weak RecordUsedIndexPage
RecordUsedIndexPage:
.weak RecoveryInProgress
RecoveryInProgress:
.weak RecoveryRequiresIntParameter
RecoveryRequiresIntParameter:
.weak RegisterBackgroundWorker
RegisterBackgroundWorker:
.weak RegisterCustomRmgr
RegisterCustomRmgr:
.weak RegisterCustomScanMethods
RegisterCustomScanMethods:
.weak RegisterDynamicBackgroundWorker
RegisterDynamicBackgroundWorker:
.weak RegisterExprContextCallback
RegisterExprContextCallback:
.weak RegisterExtensibleNodeMethods
RegisterExtensibleNodeMethods:
.weak RegisterResourceReleaseCallback
RegisterResourceReleaseCallback:
.weak RegisterSnapshot
RegisterSnapshot:
.weak RegisterSnapshotOnOwner
RegisterSnapshotOnOwner:
.weak RegisterSubXactCallback
RegisterSubXactCallback:
.weak RegisterSyncRequest
RegisterSyncRequest:
.weak RegisterXactCallback
RegisterXactCallback:
.weak ReindexIsProcessingHeap
ReindexIsProcessingHeap:
.weak ReindexIsProcessingIndex
ReindexIsProcessingIndex:
.weak ReinitializeParallelDSM
ReinitializeParallelDSM:
.weak ReinitializeParallelWorkers
ReinitializeParallelWorkers:
.weak RelFileLocatorSkippingWAL
RelFileLocatorSkippingWAL:
.weak RelationAssumeNewRelfilelocator
RelationAssumeNewRelfilelocator:
.weak RelationBuildLocalRelation
RelationBuildLocalRelation:
.weak RelationBuildPublicationDesc
RelationBuildPublicationDesc:
.weak RelationBuildTriggers
RelationBuildTriggers:
.weak RelationCacheInitFilePostInvalidate
RelationCacheInitFilePostInvalidate:
.weak RelationCacheInitFilePreInvalidate
RelationCacheInitFilePreInvalidate:
.weak RelationCacheInitFileRemove
RelationCacheInitFileRemove:
.weak RelationCacheInitialize
RelationCacheInitialize:
.weak RelationCacheInitializePhase2
RelationCacheInitializePhase2:
.weak RelationCacheInitializePhase3
RelationCacheInitializePhase3:
.weak RelationCacheInvalidate
RelationCacheInvalidate:
.weak RelationCacheInvalidateEntry
RelationCacheInvalidateEntry:
.weak RelationClearMissing
RelationClearMissing:
.weak RelationClose
RelationClose:
.weak RelationCloseSmgr
RelationCloseSmgr:
.weak RelationCloseSmgrByOid
RelationCloseSmgrByOid:
.weak RelationCopyStorage
RelationCopyStorage:
.weak RelationCreateStorage
RelationCreateStorage:
.weak RelationDecrementReferenceCount
RelationDecrementReferenceCount:
.weak RelationDropStorage
RelationDropStorage:
.weak RelationExtensionLockWaiterCount
RelationExtensionLockWaiterCount:
.weak RelationFindReplTupleByIndex
RelationFindReplTupleByIndex:
.weak RelationFindReplTupleSeq
RelationFindReplTupleSeq:
.weak RelationForgetRelation
RelationForgetRelation:
.weak RelationGetDummyIndexExpressions
RelationGetDummyIndexExpressions:
.weak RelationGetExclusionInfo
RelationGetExclusionInfo:
.weak RelationGetFKeyList
RelationGetFKeyList:
.weak RelationGetIdentityKeyBitmap
RelationGetIdentityKeyBitmap:
.weak RelationGetIndexAttOptions
RelationGetIndexAttOptions:
.weak RelationGetIndexAttrBitmap
RelationGetIndexAttrBitmap:
.weak RelationGetIndexExpressions
RelationGetIndexExpressions:
.weak RelationGetIndexList
RelationGetIndexList:
.weak RelationGetIndexPredicate
RelationGetIndexPredicate:
.weak RelationGetIndexRawAttOptions
RelationGetIndexRawAttOptions:
.weak RelationGetIndexScan
RelationGetIndexScan:
.weak RelationGetNumberOfBlocksInFork
RelationGetNumberOfBlocksInFork:
.weak RelationGetPartitionDesc
RelationGetPartitionDesc:
.weak RelationGetPrimaryKeyIndex
RelationGetPrimaryKeyIndex:
.weak RelationGetReplicaIndex
RelationGetReplicaIndex:
.weak RelationGetSmgr
RelationGetSmgr:
.weak RelationGetStatExtList
RelationGetStatExtList:
.weak RelationHasSysCache
RelationHasSysCache:
.weak RelationIdGetRelation
RelationIdGetRelation:
.weak RelationIdIsInInitFile
RelationIdIsInInitFile:
.weak RelationIncrementReferenceCount
RelationIncrementReferenceCount:
.weak RelationInitIndexAccessInfo
RelationInitIndexAccessInfo:
.weak RelationInitLockInfo
RelationInitLockInfo:
.weak RelationInitTableAccessMethod
RelationInitTableAccessMethod:
.weak RelationInvalidatesSnapshotsOnly
RelationInvalidatesSnapshotsOnly:
.weak RelationIsVisible
RelationIsVisible:
.weak RelationNameGetTupleDesc
RelationNameGetTupleDesc:
.weak RelationPreTruncate
RelationPreTruncate:
.weak RelationPreserveStorage
RelationPreserveStorage:
.weak RelationSetNewRelfilenumber
RelationSetNewRelfilenumber:
.weak RelationSupportsSysCache
RelationSupportsSysCache:
.weak RelationTruncate
RelationTruncate:
.weak ReleaseAndReadBuffer
ReleaseAndReadBuffer:
.weak ReleaseAuxProcessResources
ReleaseAuxProcessResources:
.weak ReleaseBuffer
ReleaseBuffer:
.weak ReleaseBulkInsertStatePin
ReleaseBulkInsertStatePin:
.weak ReleaseCachedPlan
ReleaseCachedPlan:
.weak ReleaseCatCache
ReleaseCatCache:
.weak ReleaseCatCacheList
ReleaseCatCacheList:
.weak ReleaseCurrentSubTransaction
ReleaseCurrentSubTransaction:
.weak ReleaseDeletionLock
ReleaseDeletionLock:
.weak ReleaseExternalFD
ReleaseExternalFD:
.weak ReleaseSavepoint
ReleaseSavepoint:
.weak ReleaseSysCache
ReleaseSysCache:
.weak RelnameGetRelid
RelnameGetRelid:
.weak RememberSimpleDeadLock
RememberSimpleDeadLock:
.weak RememberSyncRequest
RememberSyncRequest:
.weak RemoveAttributeById
RemoveAttributeById:
.weak RemoveExtensionById
RemoveExtensionById:
.weak RemoveFromWaitQueue
RemoveFromWaitQueue:
.weak RemoveFunctionById
RemoveFunctionById:
.weak RemoveLogrotateSignalFiles
RemoveLogrotateSignalFiles:
.weak RemoveNonParentXlogFiles
RemoveNonParentXlogFiles:
.weak RemoveObjects
RemoveObjects:
.weak RemoveOperatorById
RemoveOperatorById:
.weak RemovePartitionKeyByRelId
RemovePartitionKeyByRelId:
.weak RemovePgTempFiles
RemovePgTempFiles:
.weak RemovePgTempFilesInDir
RemovePgTempFilesInDir:
.weak RemovePromoteSignalFiles
RemovePromoteSignalFiles:
.weak RemovePublicationById
RemovePublicationById:
.weak RemovePublicationRelById
RemovePublicationRelById:
.weak RemovePublicationSchemaById
RemovePublicationSchemaById:
.weak RemoveRelations
RemoveRelations:
.weak RemoveRoleFromObjectACL
RemoveRoleFromObjectACL:
.weak RemoveStatistics
RemoveStatistics:
.weak RemoveStatisticsById
RemoveStatisticsById:
.weak RemoveStatisticsDataById
RemoveStatisticsDataById:
.weak RemoveTSConfigurationById
RemoveTSConfigurationById:
.weak RemoveTriggerById
RemoveTriggerById:
.weak RemoveUserMapping
RemoveUserMapping:
.weak RenameConstraint
RenameConstraint:
.weak RenameDatabase
RenameDatabase:
.weak RenameEnumLabel
RenameEnumLabel:
.weak RenameRelation
RenameRelation:
.weak RenameRelationInternal
RenameRelationInternal:
.weak RenameRole
RenameRole:
.weak RenameTableSpace
RenameTableSpace:
.weak RenameTypeInternal
RenameTypeInternal:
.weak ReorderBufferAbort
ReorderBufferAbort:
.weak ReorderBufferAbortOld
ReorderBufferAbortOld:
.weak ReorderBufferAddDistributedInvalidations
ReorderBufferAddDistributedInvalidations:
.weak ReorderBufferAddInvalidations
ReorderBufferAddInvalidations:
.weak ReorderBufferAddNewCommandId
ReorderBufferAddNewCommandId:
.weak ReorderBufferAddNewTupleCids
ReorderBufferAddNewTupleCids:
.weak ReorderBufferAddSnapshot
ReorderBufferAddSnapshot:
.weak ReorderBufferAllocate
ReorderBufferAllocate:
.weak ReorderBufferAssignChild
ReorderBufferAssignChild:
.weak ReorderBufferCommit
ReorderBufferCommit:
.weak ReorderBufferCommitChild
ReorderBufferCommitChild:
.weak ReorderBufferFinishPrepared
ReorderBufferFinishPrepared:
.weak ReorderBufferForget
ReorderBufferForget:
.weak ReorderBufferFree
ReorderBufferFree:
.weak ReorderBufferGetCatalogChangesXacts
ReorderBufferGetCatalogChangesXacts:
.weak ReorderBufferGetChange
ReorderBufferGetChange:
.weak ReorderBufferGetInvalidations
ReorderBufferGetInvalidations:
.weak ReorderBufferGetOldestTXN
ReorderBufferGetOldestTXN:
.weak ReorderBufferGetOldestXmin
ReorderBufferGetOldestXmin:
.weak ReorderBufferGetRelids
ReorderBufferGetRelids:
.weak ReorderBufferGetTupleBuf
ReorderBufferGetTupleBuf:
.weak ReorderBufferImmediateInvalidation
ReorderBufferImmediateInvalidation:
.weak ReorderBufferInvalidate
ReorderBufferInvalidate:
.weak ReorderBufferPrepare
ReorderBufferPrepare:
.weak ReorderBufferProcessXid
ReorderBufferProcessXid:
.weak ReorderBufferQueueChange
ReorderBufferQueueChange:
.weak ReorderBufferQueueMessage
ReorderBufferQueueMessage:
.weak ReorderBufferRememberPrepareInfo
ReorderBufferRememberPrepareInfo:
.weak ReorderBufferReturnChange
ReorderBufferReturnChange:
.weak ReorderBufferReturnRelids
ReorderBufferReturnRelids:
.weak ReorderBufferReturnTupleBuf
ReorderBufferReturnTupleBuf:
.weak ReorderBufferSetBaseSnapshot
ReorderBufferSetBaseSnapshot:
.weak ReorderBufferSetRestartPoint
ReorderBufferSetRestartPoint:
.weak ReorderBufferSkipPrepare
ReorderBufferSkipPrepare:
.weak ReorderBufferXidHasBaseSnapshot
ReorderBufferXidHasBaseSnapshot:
.weak ReorderBufferXidHasCatalogChanges
ReorderBufferXidHasCatalogChanges:
.weak ReorderBufferXidSetCatalogChanges
ReorderBufferXidSetCatalogChanges:
.weak ReplaceVarsFromTargetList
ReplaceVarsFromTargetList:
.weak ReplicationOriginShmemInit
ReplicationOriginShmemInit:
.weak ReplicationOriginShmemSize
ReplicationOriginShmemSize:
.weak ReplicationSlotAcquire
ReplicationSlotAcquire:
.weak ReplicationSlotCleanup
ReplicationSlotCleanup:
.weak ReplicationSlotCreate
ReplicationSlotCreate:
.weak ReplicationSlotDrop
ReplicationSlotDrop:
.weak ReplicationSlotDropAtPubNode
ReplicationSlotDropAtPubNode:
.weak ReplicationSlotIndex
ReplicationSlotIndex:
.weak ReplicationSlotInitialize
ReplicationSlotInitialize:
.weak ReplicationSlotMarkDirty
ReplicationSlotMarkDirty:
.weak ReplicationSlotName
ReplicationSlotName:
.weak ReplicationSlotNameForTablesync
ReplicationSlotNameForTablesync:
.weak ReplicationSlotPersist
ReplicationSlotPersist:
.weak ReplicationSlotRelease
ReplicationSlotRelease:
.weak ReplicationSlotReserveWal
ReplicationSlotReserveWal:
.weak ReplicationSlotSave
ReplicationSlotSave:
.weak ReplicationSlotValidateName
ReplicationSlotValidateName:
.weak ReplicationSlotValidateNameInternal
ReplicationSlotValidateNameInternal:
.weak ReplicationSlotsComputeLogicalRestartLSN
ReplicationSlotsComputeLogicalRestartLSN:
.weak ReplicationSlotsComputeRequiredLSN
ReplicationSlotsComputeRequiredLSN:
.weak ReplicationSlotsComputeRequiredXmin
ReplicationSlotsComputeRequiredXmin:
.weak ReplicationSlotsCountDBSlots
ReplicationSlotsCountDBSlots:
.weak ReplicationSlotsDropDBSlots
ReplicationSlotsDropDBSlots:
.weak ReplicationSlotsShmemInit
ReplicationSlotsShmemInit:
.weak ReplicationSlotsShmemSize
ReplicationSlotsShmemSize:
.weak ReportChangedGUCOptions
ReportChangedGUCOptions:
.weak RequestAddinShmemSpace
RequestAddinShmemSpace:
.weak RequestNamedLWLockTranche
RequestNamedLWLockTranche:
.weak RequestXLogStreaming
RequestXLogStreaming:
.weak RequestXLogSwitch
RequestXLogSwitch:
.weak RequireTransactionBlock
RequireTransactionBlock:
.weak ReserveExternalFD
ReserveExternalFD:
.weak ResetAllOptions
ResetAllOptions:
.weak ResetCatalogCaches
ResetCatalogCaches:
.weak ResetCatalogCachesExt
ResetCatalogCachesExt:
.weak ResetInstallXLogFileSegmentActive
ResetInstallXLogFileSegmentActive:
.weak ResetLatch
ResetLatch:
.weak ResetLogicalStreamingState
ResetLogicalStreamingState:
.weak ResetPlanCache
ResetPlanCache:
.weak ResetReindexState
ResetReindexState:
.weak ResetRelRewrite
ResetRelRewrite:
.weak ResetTempTableNamespace
ResetTempTableNamespace:
.weak ResetTupleHashTable
ResetTupleHashTable:
.weak ResetUsage
ResetUsage:
.weak ResolveCminCmaxDuringDecoding
ResolveCminCmaxDuringDecoding:
.weak ResolveOpClass
ResolveOpClass:
.weak ResolveRecoveryConflictWithBufferPin
ResolveRecoveryConflictWithBufferPin:
.weak ResolveRecoveryConflictWithDatabase
ResolveRecoveryConflictWithDatabase:
.weak ResolveRecoveryConflictWithLock
ResolveRecoveryConflictWithLock:
.weak ResolveRecoveryConflictWithSnapshot
ResolveRecoveryConflictWithSnapshot:
.weak ResolveRecoveryConflictWithSnapshotFullXid
ResolveRecoveryConflictWithSnapshotFullXid:
.weak ResolveRecoveryConflictWithTablespace
ResolveRecoveryConflictWithTablespace:
.weak ResourceOwnerCreate
ResourceOwnerCreate:
.weak ResourceOwnerDelete
ResourceOwnerDelete:
.weak ResourceOwnerEnlargeBufferIOs
ResourceOwnerEnlargeBufferIOs:
.weak ResourceOwnerEnlargeBuffers
ResourceOwnerEnlargeBuffers:
.weak ResourceOwnerEnlargeCatCacheListRefs
ResourceOwnerEnlargeCatCacheListRefs:
.weak ResourceOwnerEnlargeCatCacheRefs
ResourceOwnerEnlargeCatCacheRefs:
.weak ResourceOwnerEnlargeCryptoHash
ResourceOwnerEnlargeCryptoHash:
.weak ResourceOwnerEnlargeDSMs
ResourceOwnerEnlargeDSMs:
.weak ResourceOwnerEnlargeFiles
ResourceOwnerEnlargeFiles:
.weak ResourceOwnerEnlargeHMAC
ResourceOwnerEnlargeHMAC:
.weak ResourceOwnerEnlargeJIT
ResourceOwnerEnlargeJIT:
.weak ResourceOwnerEnlargePlanCacheRefs
ResourceOwnerEnlargePlanCacheRefs:
.weak ResourceOwnerEnlargeRelationRefs
ResourceOwnerEnlargeRelationRefs:
.weak ResourceOwnerEnlargeSnapshots
ResourceOwnerEnlargeSnapshots:
.weak ResourceOwnerEnlargeTupleDescs
ResourceOwnerEnlargeTupleDescs:
.weak ResourceOwnerForgetBuffer
ResourceOwnerForgetBuffer:
.weak ResourceOwnerForgetBufferIO
ResourceOwnerForgetBufferIO:
.weak ResourceOwnerForgetCatCacheListRef
ResourceOwnerForgetCatCacheListRef:
.weak ResourceOwnerForgetCatCacheRef
ResourceOwnerForgetCatCacheRef:
.weak ResourceOwnerForgetCryptoHash
ResourceOwnerForgetCryptoHash:
.weak ResourceOwnerForgetDSM
ResourceOwnerForgetDSM:
.weak ResourceOwnerForgetFile
ResourceOwnerForgetFile:
.weak ResourceOwnerForgetHMAC
ResourceOwnerForgetHMAC:
.weak ResourceOwnerForgetJIT
ResourceOwnerForgetJIT:
.weak ResourceOwnerForgetLock
ResourceOwnerForgetLock:
.weak ResourceOwnerForgetPlanCacheRef
ResourceOwnerForgetPlanCacheRef:
.weak ResourceOwnerForgetRelationRef
ResourceOwnerForgetRelationRef:
.weak ResourceOwnerForgetSnapshot
ResourceOwnerForgetSnapshot:
.weak ResourceOwnerForgetTupleDesc
ResourceOwnerForgetTupleDesc:
.weak ResourceOwnerGetParent
ResourceOwnerGetParent:
.weak ResourceOwnerNewParent
ResourceOwnerNewParent:
.weak ResourceOwnerRelease
ResourceOwnerRelease:
.weak ResourceOwnerReleaseAllPlanCacheRefs
ResourceOwnerReleaseAllPlanCacheRefs:
.weak ResourceOwnerRememberBuffer
ResourceOwnerRememberBuffer:
.weak ResourceOwnerRememberBufferIO
ResourceOwnerRememberBufferIO:
.weak ResourceOwnerRememberCatCacheListRef
ResourceOwnerRememberCatCacheListRef:
.weak ResourceOwnerRememberCatCacheRef
ResourceOwnerRememberCatCacheRef:
.weak ResourceOwnerRememberCryptoHash
ResourceOwnerRememberCryptoHash:
.weak ResourceOwnerRememberDSM
ResourceOwnerRememberDSM:
.weak ResourceOwnerRememberFile
ResourceOwnerRememberFile:
.weak ResourceOwnerRememberHMAC
ResourceOwnerRememberHMAC:
.weak ResourceOwnerRememberJIT
ResourceOwnerRememberJIT:
.weak ResourceOwnerRememberLock
ResourceOwnerRememberLock:
.weak ResourceOwnerRememberPlanCacheRef
ResourceOwnerRememberPlanCacheRef:
.weak ResourceOwnerRememberRelationRef
ResourceOwnerRememberRelationRef:
.weak ResourceOwnerRememberSnapshot
ResourceOwnerRememberSnapshot:
.weak ResourceOwnerRememberTupleDesc
ResourceOwnerRememberTupleDesc:
.weak RestoreBlockImage
RestoreBlockImage:
.weak RestoreClientConnectionInfo
RestoreClientConnectionInfo:
.weak RestoreGUCState
RestoreGUCState:
.weak RestoreLibraryState
RestoreLibraryState:
.weak RestoreParamList
RestoreParamList:
.weak RestorePendingSyncs
RestorePendingSyncs:
.weak RestoreReindexState
RestoreReindexState:
.weak RestoreSnapshot
RestoreSnapshot:
.weak RestoreTransactionCharacteristics
RestoreTransactionCharacteristics:
.weak RestoreTransactionSnapshot
RestoreTransactionSnapshot:
.weak RestoreUncommittedEnums
RestoreUncommittedEnums:
.weak RmgrCleanup
RmgrCleanup:
.weak RmgrIdExists
RmgrIdExists:
.weak RmgrIdIsBuiltin
RmgrIdIsBuiltin:
.weak RmgrIdIsCustom
RmgrIdIsCustom:
.weak RmgrNotFound
RmgrNotFound:
.weak RmgrStartup
RmgrStartup:
.weak RollbackAndReleaseCurrentSubTransaction
RollbackAndReleaseCurrentSubTransaction:
.weak RollbackToSavepoint
RollbackToSavepoint:
.weak RunFunctionExecuteHook
RunFunctionExecuteHook:
.weak RunFunctionExecuteHookStr
RunFunctionExecuteHookStr:
.weak RunNamespaceSearchHook
RunNamespaceSearchHook:
.weak RunNamespaceSearchHookStr
RunNamespaceSearchHookStr:
.weak RunObjectDropHook
RunObjectDropHook:
.weak RunObjectDropHookStr
RunObjectDropHookStr:
.weak RunObjectPostAlterHook
RunObjectPostAlterHook:
.weak RunObjectPostAlterHookStr
RunObjectPostAlterHookStr:
.weak RunObjectPostCreateHook
RunObjectPostCreateHook:
.weak RunObjectPostCreateHookStr
RunObjectPostCreateHookStr:
.weak RunObjectTruncateHook
RunObjectTruncateHook:
.weak RunObjectTruncateHookStr
RunObjectTruncateHookStr:
.weak SPI_commit
SPI_commit:
.weak SPI_commit_and_chain
SPI_commit_and_chain:
.weak SPI_connect
SPI_connect:
.weak SPI_connect_ext
SPI_connect_ext:
.weak SPI_copytuple
SPI_copytuple:
.weak SPI_cursor_close
SPI_cursor_close:
.weak SPI_cursor_fetch
SPI_cursor_fetch:
.weak SPI_cursor_find
SPI_cursor_find:
.weak SPI_cursor_move
SPI_cursor_move:
.weak SPI_cursor_open
SPI_cursor_open:
.weak SPI_cursor_open_with_args
SPI_cursor_open_with_args:
.weak SPI_cursor_open_with_paramlist
SPI_cursor_open_with_paramlist:
.weak SPI_cursor_parse_open
SPI_cursor_parse_open:
.weak SPI_datumTransfer
SPI_datumTransfer:
.weak SPI_exec
SPI_exec:
.weak SPI_execp
SPI_execp:
.weak SPI_execute
SPI_execute:
.weak SPI_execute_extended
SPI_execute_extended:
.weak SPI_execute_plan
SPI_execute_plan:
.weak SPI_execute_plan_extended
SPI_execute_plan_extended:
.weak SPI_execute_plan_with_paramlist
SPI_execute_plan_with_paramlist:
.weak SPI_execute_snapshot
SPI_execute_snapshot:
.weak SPI_execute_with_args
SPI_execute_with_args:
.weak SPI_finish
SPI_finish:
.weak SPI_fname
SPI_fname:
.weak SPI_fnumber
SPI_fnumber:
.weak SPI_freeplan
SPI_freeplan:
.weak SPI_freetuple
SPI_freetuple:
.weak SPI_freetuptable
SPI_freetuptable:
.weak SPI_getargcount
SPI_getargcount:
.weak SPI_getargtypeid
SPI_getargtypeid:
.weak SPI_getbinval
SPI_getbinval:
.weak SPI_getnspname
SPI_getnspname:
.weak SPI_getrelname
SPI_getrelname:
.weak SPI_gettype
SPI_gettype:
.weak SPI_gettypeid
SPI_gettypeid:
.weak SPI_getvalue
SPI_getvalue:
.weak SPI_inside_nonatomic_context
SPI_inside_nonatomic_context:
.weak SPI_is_cursor_plan
SPI_is_cursor_plan:
.weak SPI_keepplan
SPI_keepplan:
.weak SPI_modifytuple
SPI_modifytuple:
.weak SPI_palloc
SPI_palloc:
.weak SPI_pfree
SPI_pfree:
.weak SPI_plan_get_cached_plan
SPI_plan_get_cached_plan:
.weak SPI_plan_get_plan_sources
SPI_plan_get_plan_sources:
.weak SPI_plan_is_valid
SPI_plan_is_valid:
.weak SPI_prepare
SPI_prepare:
.weak SPI_prepare_cursor
SPI_prepare_cursor:
.weak SPI_prepare_extended
SPI_prepare_extended:
.weak SPI_prepare_params
SPI_prepare_params:
.weak SPI_register_relation
SPI_register_relation:
.weak SPI_register_trigger_data
SPI_register_trigger_data:
.weak SPI_repalloc
SPI_repalloc:
.weak SPI_result_code_string
SPI_result_code_string:
.weak SPI_returntuple
SPI_returntuple:
.weak SPI_rollback
SPI_rollback:
.weak SPI_rollback_and_chain
SPI_rollback_and_chain:
.weak SPI_saveplan
SPI_saveplan:
.weak SPI_scroll_cursor_fetch
SPI_scroll_cursor_fetch:
.weak SPI_scroll_cursor_move
SPI_scroll_cursor_move:
.weak SPI_start_transaction
SPI_start_transaction:
.weak SPI_unregister_relation
SPI_unregister_relation:
.weak SUBTRANSShmemInit
SUBTRANSShmemInit:
.weak SUBTRANSShmemSize
SUBTRANSShmemSize:
.weak SaveCachedPlan
SaveCachedPlan:
.weak SaveTransactionCharacteristics
SaveTransactionCharacteristics:
.weak ScanKeyEntryInitialize
ScanKeyEntryInitialize:
.weak ScanKeyEntryInitializeWithInfo
ScanKeyEntryInitializeWithInfo:
.weak ScanKeyInit
ScanKeyInit:
.weak ScanKeywordLookup
ScanKeywordLookup:
.weak ScheduleBufferTagForWriteback
ScheduleBufferTagForWriteback:
.weak SearchCatCache
SearchCatCache:
.weak SearchCatCache1
SearchCatCache1:
.weak SearchCatCache2
SearchCatCache2:
.weak SearchCatCache3
SearchCatCache3:
.weak SearchCatCache4
SearchCatCache4:
.weak SearchCatCacheList
SearchCatCacheList:
.weak SearchNamedReplicationSlot
SearchNamedReplicationSlot:
.weak SearchSysCache
SearchSysCache:
.weak SearchSysCache1
SearchSysCache1:
.weak SearchSysCache2
SearchSysCache2:
.weak SearchSysCache3
SearchSysCache3:
.weak SearchSysCache4
SearchSysCache4:
.weak SearchSysCacheAttName
SearchSysCacheAttName:
.weak SearchSysCacheAttNum
SearchSysCacheAttNum:
.weak SearchSysCacheCopy
SearchSysCacheCopy:
.weak SearchSysCacheCopyAttName
SearchSysCacheCopyAttName:
.weak SearchSysCacheCopyAttNum
SearchSysCacheCopyAttNum:
.weak SearchSysCacheExists
SearchSysCacheExists:
.weak SearchSysCacheExistsAttName
SearchSysCacheExistsAttName:
.weak SearchSysCacheList
SearchSysCacheList:
.weak SearchSysCacheLocked1
SearchSysCacheLocked1:
.weak SearchSysCacheLockedCopy1
SearchSysCacheLockedCopy1:
.weak SelectConfigFiles
SelectConfigFiles:
.weak SendFunctionCall
SendFunctionCall:
.weak SendProcSignal
SendProcSignal:
.weak SendSharedInvalidMessages
SendSharedInvalidMessages:
.weak SerializeClientConnectionInfo
SerializeClientConnectionInfo:
.weak SerializeGUCState
SerializeGUCState:
.weak SerializeLibraryState
SerializeLibraryState:
.weak SerializeParamList
SerializeParamList:
.weak SerializePendingSyncs
SerializePendingSyncs:
.weak SerializeReindexState
SerializeReindexState:
.weak SerializeSnapshot
SerializeSnapshot:
.weak SerializeTransactionState
SerializeTransactionState:
.weak SerializeUncommittedEnums
SerializeUncommittedEnums:
.weak SetAttrMissing
SetAttrMissing:
.weak SetAuthenticatedUserId
SetAuthenticatedUserId:
.weak SetClientEncoding
SetClientEncoding:
.weak SetCommitTsLimit
SetCommitTsLimit:
.weak SetConfigOption
SetConfigOption:
.weak SetCurrentRoleId
SetCurrentRoleId:
.weak SetCurrentStatementStartTimestamp
SetCurrentStatementStartTimestamp:
.weak SetDataDir
SetDataDir:
.weak SetDatabaseEncoding
SetDatabaseEncoding:
.weak SetDatabasePath
SetDatabasePath:
.weak SetEpochTimestamp
SetEpochTimestamp:
.weak SetInstallXLogFileSegmentActive
SetInstallXLogFileSegmentActive:
.weak SetLatch
SetLatch:
.weak SetMessageEncoding
SetMessageEncoding:
.weak SetMultiXactIdLimit
SetMultiXactIdLimit:
.weak SetOldSnapshotThresholdTimestamp
SetOldSnapshotThresholdTimestamp:
.weak SetPGVariable
SetPGVariable:
.weak SetParallelStartTimestamps
SetParallelStartTimestamps:
.weak SetQueryCompletion
SetQueryCompletion:
.weak SetRecoveryPause
SetRecoveryPause:
.weak SetRelationHasSubclass
SetRelationHasSubclass:
.weak SetRelationTableSpace
SetRelationTableSpace:
.weak SetSecurityLabel
SetSecurityLabel:
.weak SetSessionAuthorization
SetSessionAuthorization:
.weak SetStartupBufferPinWaitBufId
SetStartupBufferPinWaitBufId:
.weak SetTempNamespaceState
SetTempNamespaceState:
.weak SetTempTablespaces
SetTempTablespaces:
.weak SetTransactionIdLimit
SetTransactionIdLimit:
.weak SetUserIdAndContext
SetUserIdAndContext:
.weak SetUserIdAndSecContext
SetUserIdAndSecContext:
.weak SetWalWriterSleeping
SetWalWriterSleeping:
.weak SetupHistoricSnapshot
SetupHistoricSnapshot:
.weak SharedFileSetAttach
SharedFileSetAttach:
.weak SharedFileSetDeleteAll
SharedFileSetDeleteAll:
.weak SharedFileSetInit
SharedFileSetInit:
.weak SharedRecordTypmodRegistryAttach
SharedRecordTypmodRegistryAttach:
.weak SharedRecordTypmodRegistryEstimate
SharedRecordTypmodRegistryEstimate:
.weak SharedRecordTypmodRegistryInit
SharedRecordTypmodRegistryInit:
.weak ShmemAddrIsValid
ShmemAddrIsValid:
.weak ShmemAlloc
ShmemAlloc:
.weak ShmemAllocNoError
ShmemAllocNoError:
.weak ShmemAllocUnlocked
ShmemAllocUnlocked:
.weak ShmemInitHash
ShmemInitHash:
.weak ShmemInitStruct
ShmemInitStruct:
.weak ShowGUCOption
ShowGUCOption:
.weak ShowUsage
ShowUsage:
.weak ShutdownLatchSupport
ShutdownLatchSupport:
.weak ShutdownRecoveryTransactionEnvironment
ShutdownRecoveryTransactionEnvironment:
.weak ShutdownWalRcv
ShutdownWalRcv:
.weak ShutdownWalRecovery
ShutdownWalRecovery:
.weak ShutdownXLOG
ShutdownXLOG:
.weak SignalHandlerForConfigReload
SignalHandlerForConfigReload:
.weak SignalHandlerForCrashExit
SignalHandlerForCrashExit:
.weak SignalHandlerForShutdownRequest
SignalHandlerForShutdownRequest:
.weak SignalVirtualTransaction
SignalVirtualTransaction:
.weak SlabContextCreate
SlabContextCreate:
.weak SnapMgrInit
SnapMgrInit:
.weak SnapMgrShmemSize
SnapMgrShmemSize:
.weak SnapshotSetCommandId
SnapshotSetCommandId:
.weak SnapshotTooOldMagicForTest
SnapshotTooOldMagicForTest:
.weak SpeculativeInsertionLockAcquire
SpeculativeInsertionLockAcquire:
.weak SpeculativeInsertionLockRelease
SpeculativeInsertionLockRelease:
.weak SpeculativeInsertionWait
SpeculativeInsertionWait:
.weak SpinlockSemaSize
SpinlockSemaSize:
.weak SpinlockSemas
SpinlockSemas:
.weak SplitDirectoriesString
SplitDirectoriesString:
.weak SplitGUCList
SplitGUCList:
.weak SplitIdentifierString
SplitIdentifierString:
.weak StandbyAcquireAccessExclusiveLock
StandbyAcquireAccessExclusiveLock:
.weak StandbyDeadLockHandler
StandbyDeadLockHandler:
.weak StandbyLockTimeoutHandler
StandbyLockTimeoutHandler:
.weak StandbyReleaseAllLocks
StandbyReleaseAllLocks:
.weak StandbyReleaseLockTree
StandbyReleaseLockTree:
.weak StandbyReleaseOldLocks
StandbyReleaseOldLocks:
.weak StandbyTimeoutHandler
StandbyTimeoutHandler:
.weak StartParallelWorkerTransaction
StartParallelWorkerTransaction:
.weak StartTransactionCommand
StartTransactionCommand:
.weak StartupCLOG
StartupCLOG:
.weak StartupCommitTs
StartupCommitTs:
.weak StartupMultiXact
StartupMultiXact:
.weak StartupReorderBuffer
StartupReorderBuffer:
.weak StartupReplicationOrigin
StartupReplicationOrigin:
.weak StartupReplicationSlots
StartupReplicationSlots:
.weak StartupRequestWalReceiverRestart
StartupRequestWalReceiverRestart:
.weak StartupSUBTRANS
StartupSUBTRANS:
.weak StartupXLOG
StartupXLOG:
.weak StatementCancelHandler
StatementCancelHandler:
.weak StatisticsGetRelation
StatisticsGetRelation:
.weak StatisticsObjIsVisible
StatisticsObjIsVisible:
.weak StatsShmemInit
StatsShmemInit:
.weak StatsShmemSize
StatsShmemSize:
.weak StatusFilePath
StatusFilePath:
.weak StopGeneratingPinnedObjectIds
StopGeneratingPinnedObjectIds:
.weak StoreAttrMissingVal
StoreAttrMissingVal:
.weak StorePartitionBound
StorePartitionBound:
.weak StorePartitionKey
StorePartitionKey:
.weak StorePreparedStatement
StorePreparedStatement:
.weak StrategyFreeBuffer
StrategyFreeBuffer:
.weak StrategyGetBuffer
StrategyGetBuffer:
.weak StrategyInitialize
StrategyInitialize:
.weak StrategyNotifyBgWriter
StrategyNotifyBgWriter:
.weak StrategyRejectBuffer
StrategyRejectBuffer:
.weak StrategyShmemSize
StrategyShmemSize:
.weak StrategySyncStart
StrategySyncStart:
.weak SubTransGetParent
SubTransGetParent:
.weak SubTransGetTopmostTransaction
SubTransGetTopmostTransaction:
.weak SubTransSetParent
SubTransSetParent:
.weak SubTransactionIsActive
SubTransactionIsActive:
.weak SwitchBackToLocalLatch
SwitchBackToLocalLatch:
.weak SwitchIntoArchiveRecovery
SwitchIntoArchiveRecovery:
.weak SwitchToSharedLatch
SwitchToSharedLatch:
.weak SyncDataDirectory
SyncDataDirectory:
.weak SyncPostCheckpoint
SyncPostCheckpoint:
.weak SyncPreCheckpoint
SyncPreCheckpoint:
.weak SyncRepCleanupAtProcExit
SyncRepCleanupAtProcExit:
.weak SyncRepGetCandidateStandbys
SyncRepGetCandidateStandbys:
.weak SyncRepInitConfig
SyncRepInitConfig:
.weak SyncRepReleaseWaiters
SyncRepReleaseWaiters:
.weak SyncRepUpdateSyncStandbysDefined
SyncRepUpdateSyncStandbysDefined:
.weak SyncRepWaitForLSN
SyncRepWaitForLSN:
.weak SysCacheGetAttr
SysCacheGetAttr:
.weak SysCacheGetAttrNotNull
SysCacheGetAttrNotNull:
.weak SysCacheInvalidate
SysCacheInvalidate:
.weak SysLogger_Start
SysLogger_Start:
.weak SystemAttributeByName
SystemAttributeByName:
.weak SystemAttributeDefinition
SystemAttributeDefinition:
.weak SystemFuncName
SystemFuncName:
.weak SystemTypeName
SystemTypeName:
.weak TLHistoryFileName
TLHistoryFileName:
.weak TLHistoryFilePath
TLHistoryFilePath:
.weak TSConfigIsVisible
TSConfigIsVisible:
.weak TSDictionaryIsVisible
TSDictionaryIsVisible:
.weak TSParserIsVisible
TSParserIsVisible:
.weak TSQueryGetDatum
TSQueryGetDatum:
.weak TSQuerySignGetDatum
TSQuerySignGetDatum:
.weak TSTemplateIsVisible
TSTemplateIsVisible:
.weak TSVectorGetDatum
TSVectorGetDatum:
.weak TS_execute
TS_execute:
.weak TS_execute_locations
TS_execute_locations:
.weak TS_execute_ternary
TS_execute_ternary:
.weak TablespaceCreateDbspace
TablespaceCreateDbspace:
.weak TeardownHistoricSnapshot
TeardownHistoricSnapshot:
.weak TempTablespacePath
TempTablespacePath:
.weak TempTablespacesAreSet
TempTablespacesAreSet:
.weak TemporalSimplify
TemporalSimplify:
.weak TerminateBackgroundWorker
TerminateBackgroundWorker:
.weak TerminateOtherDBBackends
TerminateOtherDBBackends:
.weak TestForOldSnapshot
TestForOldSnapshot:
.weak TestForOldSnapshot_impl
TestForOldSnapshot_impl:
.weak ThereAreNoPriorRegisteredSnapshots
ThereAreNoPriorRegisteredSnapshots:
.weak ThereAreNoReadyPortals
ThereAreNoReadyPortals:
.weak ThrowErrorData
ThrowErrorData:
.weak TimeADTGetDatum
TimeADTGetDatum:
.weak TimeTzADTPGetDatum
TimeTzADTPGetDatum:
.weak TimestampDifference
TimestampDifference:
.weak TimestampDifferenceExceeds
TimestampDifferenceExceeds:
.weak TimestampDifferenceMilliseconds
TimestampDifferenceMilliseconds:
.weak TimestampGetDatum
TimestampGetDatum:
.weak TimestampTimestampTzRequiresRewrite
TimestampTimestampTzRequiresRewrite:
.weak TimestampTzGetDatum
TimestampTzGetDatum:
.weak TouchSocketLockFiles
TouchSocketLockFiles:
.weak TransactionBlockStatusCode
TransactionBlockStatusCode:
.weak TransactionIdAbortTree
TransactionIdAbortTree:
.weak TransactionIdAsyncCommitTree
TransactionIdAsyncCommitTree:
.weak TransactionIdCommitTree
TransactionIdCommitTree:
.weak TransactionIdDidAbort
TransactionIdDidAbort:
.weak TransactionIdDidCommit
TransactionIdDidCommit:
.weak TransactionIdFollows
TransactionIdFollows:
.weak TransactionIdFollowsOrEquals
TransactionIdFollowsOrEquals:
.weak TransactionIdGetCommitLSN
TransactionIdGetCommitLSN:
.weak TransactionIdGetCommitTsData
TransactionIdGetCommitTsData:
.weak TransactionIdGetDatum
TransactionIdGetDatum:
.weak TransactionIdGetStatus
TransactionIdGetStatus:
.weak TransactionIdIsActive
TransactionIdIsActive:
.weak TransactionIdIsCurrentTransactionId
TransactionIdIsCurrentTransactionId:
.weak TransactionIdIsInProgress
TransactionIdIsInProgress:
.weak TransactionIdLatest
TransactionIdLatest:
.weak TransactionIdLimitedForOldSnapshots
TransactionIdLimitedForOldSnapshots:
.weak TransactionIdOlder
TransactionIdOlder:
.weak TransactionIdPrecedes
TransactionIdPrecedes:
.weak TransactionIdPrecedesOrEquals
TransactionIdPrecedesOrEquals:
.weak TransactionIdRetreatedBy
TransactionIdRetreatedBy:
.weak TransactionIdSetTreeStatus
TransactionIdSetTreeStatus:
.weak TransactionStartedDuringRecovery
TransactionStartedDuringRecovery:
.weak TransactionTreeSetCommitTsData
TransactionTreeSetCommitTsData:
.weak TransferExpandedObject
TransferExpandedObject:
.weak TriggerSetParentTrigger
TriggerSetParentTrigger:
.weak TrimCLOG
TrimCLOG:
.weak TrimMultiXact
TrimMultiXact:
.weak TruncateCLOG
TruncateCLOG:
.weak TruncateCommitTs
TruncateCommitTs:
.weak TruncateMultiXact
TruncateMultiXact:
.weak TruncateSUBTRANS
TruncateSUBTRANS:
.weak TupleDescCopy
TupleDescCopy:
.weak TupleDescCopyEntry
TupleDescCopyEntry:
.weak TupleDescGetAttInMetadata
TupleDescGetAttInMetadata:
.weak TupleDescInitBuiltinEntry
TupleDescInitBuiltinEntry:
.weak TupleDescInitEntry
TupleDescInitEntry:
.weak TupleDescInitEntryCollation
TupleDescInitEntryCollation:
.weak TupleHashTableHash
TupleHashTableHash:
.weak TypeCategory
TypeCategory:
.weak TypeCreate
TypeCreate:
.weak TypeGetTupleDesc
TypeGetTupleDesc:
.weak TypeIsVisible
TypeIsVisible:
.weak TypeNameListToString
TypeNameListToString:
.weak TypeNameToString
TypeNameToString:
.weak TypeShellMake
TypeShellMake:
.weak TypenameGetTypid
TypenameGetTypid:
.weak TypenameGetTypidExtended
TypenameGetTypidExtended:
.weak UInt16GetDatum
UInt16GetDatum:
.weak UInt32GetDatum
UInt32GetDatum:
.weak UInt64GetDatum
UInt64GetDatum:
.weak UInt8GetDatum
UInt8GetDatum:
.weak UnlockApplyTransactionForSession
UnlockApplyTransactionForSession:
.weak UnlockBufHdr
UnlockBufHdr:
.weak UnlockBuffers
UnlockBuffers:
.weak UnlockDatabaseObject
UnlockDatabaseObject:
.weak UnlockPage
UnlockPage:
.weak UnlockRelation
UnlockRelation:
.weak UnlockRelationForExtension
UnlockRelationForExtension:
.weak UnlockRelationId
UnlockRelationId:
.weak UnlockRelationIdForSession
UnlockRelationIdForSession:
.weak UnlockRelationOid
UnlockRelationOid:
.weak UnlockReleaseBuffer
UnlockReleaseBuffer:
.weak UnlockSharedObject
UnlockSharedObject:
.weak UnlockSharedObjectForSession
UnlockSharedObjectForSession:
.weak UnlockTuple
UnlockTuple:
.weak UnpinLocalBuffer
UnpinLocalBuffer:
.weak UnpinPortal
UnpinPortal:
.weak UnregisterExprContextCallback
UnregisterExprContextCallback:
.weak UnregisterResourceReleaseCallback
UnregisterResourceReleaseCallback:
.weak UnregisterSnapshot
UnregisterSnapshot:
.weak UnregisterSnapshotFromOwner
UnregisterSnapshotFromOwner:
.weak UnregisterSubXactCallback
UnregisterSubXactCallback:
.weak UnregisterXactCallback
UnregisterXactCallback:
.weak UpdateActiveSnapshotCommandId
UpdateActiveSnapshotCommandId:
.weak UpdateChangedParamSet
UpdateChangedParamSet:
.weak UpdateDecodingStats
UpdateDecodingStats:
.weak UpdateDomainConstraintRef
UpdateDomainConstraintRef:
.weak UpdateFullPageWrites
UpdateFullPageWrites:
.weak UserAbortTransactionBlock
UserAbortTransactionBlock:
.weak UtfToLocal
UtfToLocal:
.weak UtilityContainsQuery
UtilityContainsQuery:
.weak UtilityReturnsTuples
UtilityReturnsTuples:
.weak UtilityTupleDescriptor
UtilityTupleDescriptor:
.weak VacuumUpdateCosts
VacuumUpdateCosts:
.weak ValidateDate
ValidateDate:
.weak ValidatePgVersion
ValidatePgVersion:
.weak VirtualXactLock
VirtualXactLock:
.weak VirtualXactLockTableCleanup
VirtualXactLockTableCleanup:
.weak VirtualXactLockTableInsert
VirtualXactLockTableInsert:
.weak WALRead
WALRead:
.weak WALReadRaiseError
WALReadRaiseError:
.weak WaitEventSetCanReportClosed
WaitEventSetCanReportClosed:
.weak WaitEventSetWait
WaitEventSetWait:
.weak WaitForBackgroundWorkerShutdown
WaitForBackgroundWorkerShutdown:
.weak WaitForBackgroundWorkerStartup
WaitForBackgroundWorkerStartup:
.weak WaitForLockers
WaitForLockers:
.weak WaitForLockersMultiple
WaitForLockersMultiple:
.weak WaitForOlderSnapshots
WaitForOlderSnapshots:
.weak WaitForParallelWorkersToAttach
WaitForParallelWorkersToAttach:
.weak WaitForParallelWorkersToFinish
WaitForParallelWorkersToFinish:
.weak WaitForProcSignalBarrier
WaitForProcSignalBarrier:
.weak WaitLatch
WaitLatch:
.weak WaitLatchOrSocket
WaitLatchOrSocket:
.weak WakeupRecovery
WakeupRecovery:
.weak WalRcvForceReply
WalRcvForceReply:
.weak WalRcvRunning
WalRcvRunning:
.weak WalRcvShmemInit
WalRcvShmemInit:
.weak WalRcvShmemSize
WalRcvShmemSize:
.weak WalRcvStreaming
WalRcvStreaming:
.weak WalReceiverMain
WalReceiverMain:
.weak WalSndErrorCleanup
WalSndErrorCleanup:
.weak WalSndInitStopping
WalSndInitStopping:
.weak WalSndResourceCleanup
WalSndResourceCleanup:
.weak WalSndRqstFileReload
WalSndRqstFileReload:
.weak WalSndSetState
WalSndSetState:
.weak WalSndShmemInit
WalSndShmemInit:
.weak WalSndShmemSize
WalSndShmemSize:
.weak WalSndSignals
WalSndSignals:
.weak WalSndWaitStopping
WalSndWaitStopping:
.weak WalSndWakeup
WalSndWakeup:
.weak WalSndWakeupProcessRequests
WalSndWakeupProcessRequests:
.weak WalUsageAccumDiff
WalUsageAccumDiff:
.weak WarnNoTransactionBlock
WarnNoTransactionBlock:
.weak WritebackContextInit
WritebackContextInit:
.weak XLOGShmemInit
XLOGShmemInit:
.weak XLOGShmemSize
XLOGShmemSize:
.weak XLogBackgroundFlush
XLogBackgroundFlush:
.weak XLogBeginInsert
XLogBeginInsert:
.weak XLogBeginRead
XLogBeginRead:
.weak XLogCheckBufferNeedsBackup
XLogCheckBufferNeedsBackup:
.weak XLogCheckInvalidPages
XLogCheckInvalidPages:
.weak XLogCheckpointNeeded
XLogCheckpointNeeded:
.weak XLogDropDatabase
XLogDropDatabase:
.weak XLogDropRelation
XLogDropRelation:
.weak XLogEnsureRecordSpace
XLogEnsureRecordSpace:
.weak XLogFileInit
XLogFileInit:
.weak XLogFileName
XLogFileName:
.weak XLogFileNameById
XLogFileNameById:
.weak XLogFileOpen
XLogFileOpen:
.weak XLogFilePath
XLogFilePath:
.weak XLogFindNextRecord
XLogFindNextRecord:
.weak XLogFlush
XLogFlush:
.weak XLogFlushBufferForRedoIfInit
XLogFlushBufferForRedoIfInit:
.weak XLogFromFileName
XLogFromFileName:
.weak XLogGetLastRemovedSegno
XLogGetLastRemovedSegno:
.weak XLogHaveInvalidPages
XLogHaveInvalidPages:
.weak XLogInitBufferForRedo
XLogInitBufferForRedo:
.weak XLogInsert
XLogInsert:
.weak XLogInsertAllowed
XLogInsertAllowed:
.weak XLogInsertRecord
XLogInsertRecord:
.weak XLogNeedsFlush
XLogNeedsFlush:
.weak XLogNextRecord
XLogNextRecord:
.weak XLogPutNextOid
XLogPutNextOid:
.weak XLogReadAhead
XLogReadAhead:
.weak XLogReadBufferExtended
XLogReadBufferExtended:
.weak XLogReadBufferForRedo
XLogReadBufferForRedo:
.weak XLogReadBufferForRedoExtended
XLogReadBufferForRedoExtended:
.weak XLogReadDetermineTimeline
XLogReadDetermineTimeline:
.weak XLogReadRecord
XLogReadRecord:
.weak XLogReaderAllocate
XLogReaderAllocate:
.weak XLogReaderFree
XLogReaderFree:
.weak XLogReaderHasQueuedRecordOrError
XLogReaderHasQueuedRecordOrError:
.weak XLogReaderResetError
XLogReaderResetError:
.weak XLogReaderSetDecodeBuffer
XLogReaderSetDecodeBuffer:
.weak XLogReaderValidatePageHeader
XLogReaderValidatePageHeader:
.weak XLogRecGetBlockData
XLogRecGetBlockData:
.weak XLogRecGetBlockRefInfo
XLogRecGetBlockRefInfo:
.weak XLogRecGetBlockTag
XLogRecGetBlockTag:
.weak XLogRecGetBlockTagExtended
XLogRecGetBlockTagExtended:
.weak XLogRecGetFullXid
XLogRecGetFullXid:
.weak XLogRecordPageWithFreeSpace
XLogRecordPageWithFreeSpace:
.weak XLogRecoveryShmemInit
XLogRecoveryShmemInit:
.weak XLogRecoveryShmemSize
XLogRecoveryShmemSize:
.weak XLogRegisterBlock
XLogRegisterBlock:
.weak XLogRegisterBufData
XLogRegisterBufData:
.weak XLogRegisterBuffer
XLogRegisterBuffer:
.weak XLogRegisterData
XLogRegisterData:
.weak XLogReleasePreviousRecord
XLogReleasePreviousRecord:
.weak XLogRequestWalReceiverReply
XLogRequestWalReceiverReply:
.weak XLogResetInsertion
XLogResetInsertion:
.weak XLogRestorePoint
XLogRestorePoint:
.weak XLogSaveBufferForHint
XLogSaveBufferForHint:
.weak XLogSetAsyncXactLSN
XLogSetAsyncXactLSN:
.weak XLogSetRecordFlags
XLogSetRecordFlags:
.weak XLogSetReplicationSlotMinimumLSN
XLogSetReplicationSlotMinimumLSN:
.weak XLogShutdownWalRcv
XLogShutdownWalRcv:
.weak XLogTruncateRelation
XLogTruncateRelation:
.weak XactHasExportedSnapshots
XactHasExportedSnapshots:
.weak XactLockTableDelete
XactLockTableDelete:
.weak XactLockTableInsert
XactLockTableInsert:
.weak XactLockTableWait
XactLockTableWait:
.weak XactLogAbortRecord
XactLogAbortRecord:
.weak XactLogCommitRecord
XactLogCommitRecord:
.weak XidCacheRemoveRunningXids
XidCacheRemoveRunningXids:
.weak XidInMVCCSnapshot
XidInMVCCSnapshot:
.weak _PG_fini
_PG_fini:
.weak _PG_init
_PG_init:
.weak _PG_jit_provider_init
_PG_jit_provider_init:
.weak _PG_output_plugin_init
_PG_output_plugin_init:
.weak accumArrayResult
accumArrayResult:
.weak accumArrayResultAny
accumArrayResultAny:
.weak accumArrayResultArr
accumArrayResultArr:
.weak aclcheck_error
aclcheck_error:
.weak aclcheck_error_col
aclcheck_error_col:
.weak aclcheck_error_type
aclcheck_error_type:
.weak aclconcat
aclconcat:
.weak aclcontains
aclcontains:
.weak aclcopy
aclcopy:
.weak acldefault
acldefault:
.weak acldefault_sql
acldefault_sql:
.weak aclequal
aclequal:
.weak aclexplode
aclexplode:
.weak aclinsert
aclinsert:
.weak aclitem_eq
aclitem_eq:
.weak aclitemin
aclitemin:
.weak aclitemout
aclitemout:
.weak aclitemsort
aclitemsort:
.weak aclmask
aclmask:
.weak aclmembers
aclmembers:
.weak aclmerge
aclmerge:
.weak aclnewowner
aclnewowner:
.weak aclremove
aclremove:
.weak aclupdate
aclupdate:
.weak addNSItemToQuery
addNSItemToQuery:
.weak addRTEPermissionInfo
addRTEPermissionInfo:
.weak addRangeTableEntry
addRangeTableEntry:
.weak addRangeTableEntryForCTE
addRangeTableEntryForCTE:
.weak addRangeTableEntryForENR
addRangeTableEntryForENR:
.weak addRangeTableEntryForFunction
addRangeTableEntryForFunction:
.weak addRangeTableEntryForJoin
addRangeTableEntryForJoin:
.weak addRangeTableEntryForRelation
addRangeTableEntryForRelation:
.weak addRangeTableEntryForSubquery
addRangeTableEntryForSubquery:
.weak addRangeTableEntryForTableFunc
addRangeTableEntryForTableFunc:
.weak addRangeTableEntryForValues
addRangeTableEntryForValues:
.weak add_base_rels_to_query
add_base_rels_to_query:
.weak add_bool_reloption
add_bool_reloption:
.weak add_child_join_rel_equivalences
add_child_join_rel_equivalences:
.weak add_child_rel_equivalences
add_child_rel_equivalences:
.weak add_column_to_pathtarget
add_column_to_pathtarget:
.weak add_enum_reloption
add_enum_reloption:
.weak add_exact_object_address
add_exact_object_address:
.weak add_function_cost
add_function_cost:
.weak add_int_reloption
add_int_reloption:
.weak add_local_bool_reloption
add_local_bool_reloption:
.weak add_local_enum_reloption
add_local_enum_reloption:
.weak add_local_int_reloption
add_local_int_reloption:
.weak add_local_real_reloption
add_local_real_reloption:
.weak add_local_string_reloption
add_local_string_reloption:
.weak add_new_column_to_pathtarget
add_new_column_to_pathtarget:
.weak add_new_columns_to_pathtarget
add_new_columns_to_pathtarget:
.weak add_nulling_relids
add_nulling_relids:
.weak add_other_rels_to_query
add_other_rels_to_query:
.weak add_outer_joins_to_relids
add_outer_joins_to_relids:
.weak add_partial_path
add_partial_path:
.weak add_partial_path_precheck
add_partial_path_precheck:
.weak add_path
add_path:
.weak add_path_precheck
add_path_precheck:
.weak add_paths_to_append_rel
add_paths_to_append_rel:
.weak add_paths_to_joinrel
add_paths_to_joinrel:
.weak add_predicate_to_index_quals
add_predicate_to_index_quals:
.weak add_real_reloption
add_real_reloption:
.weak add_reloption_kind
add_reloption_kind:
.weak add_row_identity_columns
add_row_identity_columns:
.weak add_row_identity_var
add_row_identity_var:
.weak add_size
add_size:
.weak add_string_reloption
add_string_reloption:
.weak add_to_flat_tlist
add_to_flat_tlist:
.weak add_vars_to_targetlist
add_vars_to_targetlist:
.weak adjust_appendrel_attrs
adjust_appendrel_attrs:
.weak adjust_appendrel_attrs_multilevel
adjust_appendrel_attrs_multilevel:
.weak adjust_child_relids
adjust_child_relids:
.weak adjust_child_relids_multilevel
adjust_child_relids_multilevel:
.weak adjust_inherited_attnums
adjust_inherited_attnums:
.weak adjust_inherited_attnums_multilevel
adjust_inherited_attnums_multilevel:
.weak adjust_limit_rows_costs
adjust_limit_rows_costs:
.weak all_rows_selectable
all_rows_selectable:
.weak amvalidate
amvalidate:
.weak analyze_rel
analyze_rel:
.weak analyze_requires_snapshot
analyze_requires_snapshot:
.weak anl_get_next_S
anl_get_next_S:
.weak anl_init_selection_state
anl_init_selection_state:
.weak anl_random_fract
anl_random_fract:
.weak any_in
any_in:
.weak any_out
any_out:
.weak any_value_transfn
any_value_transfn:
.weak anyarray_in
anyarray_in:
.weak anyarray_out
anyarray_out:
.weak anyarray_recv
anyarray_recv:
.weak anyarray_send
anyarray_send:
.weak anycompatible_in
anycompatible_in:
.weak anycompatible_out
anycompatible_out:
.weak anycompatiblearray_in
anycompatiblearray_in:
.weak anycompatiblearray_out
anycompatiblearray_out:
.weak anycompatiblearray_recv
anycompatiblearray_recv:
.weak anycompatiblearray_send
anycompatiblearray_send:
.weak anycompatiblemultirange_in
anycompatiblemultirange_in:
.weak anycompatiblemultirange_out
anycompatiblemultirange_out:
.weak anycompatiblenonarray_in
anycompatiblenonarray_in:
.weak anycompatiblenonarray_out
anycompatiblenonarray_out:
.weak anycompatiblerange_in
anycompatiblerange_in:
.weak anycompatiblerange_out
anycompatiblerange_out:
.weak anyelement_in
anyelement_in:
.weak anyelement_out
anyelement_out:
.weak anyenum_in
anyenum_in:
.weak anyenum_out
anyenum_out:
.weak anymultirange_in
anymultirange_in:
.weak anymultirange_out
anymultirange_out:
.weak anynonarray_in
anynonarray_in:
.weak anynonarray_out
anynonarray_out:
.weak anyrange_in
anyrange_in:
.weak anyrange_out
anyrange_out:
.weak anytime_typmod_check
anytime_typmod_check:
.weak anytimestamp_typmod_check
anytimestamp_typmod_check:
.weak appendBinaryStringInfo
appendBinaryStringInfo:
.weak appendBinaryStringInfoNT
appendBinaryStringInfoNT:
.weak appendStringInfo
appendStringInfo:
.weak appendStringInfoChar
appendStringInfoChar:
.weak appendStringInfoSpaces
appendStringInfoSpaces:
.weak appendStringInfoString
appendStringInfoString:
.weak appendStringInfoVA
appendStringInfoVA:
.weak append_pathkeys
append_pathkeys:
.weak applyLockingClause
applyLockingClause:
.weak applyRelabelType
applyRelabelType:
.weak apply_pathtarget_labeling_to_tlist
apply_pathtarget_labeling_to_tlist:
.weak apply_projection_to_path
apply_projection_to_path:
.weak apply_tlist_labeling
apply_tlist_labeling:
.weak areajoinsel
areajoinsel:
.weak areasel
areasel:
.weak array_agg_array_combine
array_agg_array_combine:
.weak array_agg_array_deserialize
array_agg_array_deserialize:
.weak array_agg_array_finalfn
array_agg_array_finalfn:
.weak array_agg_array_serialize
array_agg_array_serialize:
.weak array_agg_array_transfn
array_agg_array_transfn:
.weak array_agg_combine
array_agg_combine:
.weak array_agg_deserialize
array_agg_deserialize:
.weak array_agg_finalfn
array_agg_finalfn:
.weak array_agg_serialize
array_agg_serialize:
.weak array_agg_transfn
array_agg_transfn:
.weak array_append
array_append:
.weak array_bitmap_copy
array_bitmap_copy:
.weak array_cardinality
array_cardinality:
.weak array_cat
array_cat:
.weak array_contains_nulls
array_contains_nulls:
.weak array_create_iterator
array_create_iterator:
.weak array_dims
array_dims:
.weak array_eq
array_eq:
.weak array_fill
array_fill:
.weak array_fill_with_lower_bounds
array_fill_with_lower_bounds:
.weak array_free_iterator
array_free_iterator:
.weak array_ge
array_ge:
.weak array_get_element
array_get_element:
.weak array_get_slice
array_get_slice:
.weak array_gt
array_gt:
.weak array_in
array_in:
.weak array_iterate
array_iterate:
.weak array_larger
array_larger:
.weak array_le
array_le:
.weak array_length
array_length:
.weak array_lower
array_lower:
.weak array_lt
array_lt:
.weak array_map
array_map:
.weak array_ndims
array_ndims:
.weak array_ne
array_ne:
.weak array_out
array_out:
.weak array_position
array_position:
.weak array_position_start
array_position_start:
.weak array_positions
array_positions:
.weak array_prepend
array_prepend:
.weak array_recv
array_recv:
.weak array_ref
array_ref:
.weak array_remove
array_remove:
.weak array_replace
array_replace:
.weak array_sample
array_sample:
.weak array_send
array_send:
.weak array_set
array_set:
.weak array_set_element
array_set_element:
.weak array_set_slice
array_set_slice:
.weak array_shuffle
array_shuffle:
.weak array_smaller
array_smaller:
.weak array_subscript_handler
array_subscript_handler:
.weak array_to_json
array_to_json:
.weak array_to_json_pretty
array_to_json_pretty:
.weak array_to_text
array_to_text:
.weak array_to_text_null
array_to_text_null:
.weak array_to_tsvector
array_to_tsvector:
.weak array_typanalyze
array_typanalyze:
.weak array_unnest
array_unnest:
.weak array_unnest_support
array_unnest_support:
.weak array_upper
array_upper:
.weak arraycontained
arraycontained:
.weak arraycontains
arraycontains:
.weak arraycontjoinsel
arraycontjoinsel:
.weak arraycontsel
arraycontsel:
.weak arrayoverlap
arrayoverlap:
.weak as_mut_ptr
as_mut_ptr:
.weak as_ptr
as_ptr:
.weak ascii
ascii:
.weak assign_createrole_self_grant
assign_createrole_self_grant:
.weak assign_expr_collations
assign_expr_collations:
.weak assign_list_collations
assign_list_collations:
.weak assign_query_collations
assign_query_collations:
.weak assign_record_type_identifier
assign_record_type_identifier:
.weak assign_record_type_typmod
assign_record_type_typmod:
.weak att_isnull
att_isnull:
.weak attnameAttNum
attnameAttNum:
.weak attnumAttName
attnumAttName:
.weak attnumCollationId
attnumCollationId:
.weak attnumTypeId
attnumTypeId:
.weak attribute_reloptions
attribute_reloptions:
.weak be_lo_close
be_lo_close:
.weak be_lo_creat
be_lo_creat:
.weak be_lo_create
be_lo_create:
.weak be_lo_export
be_lo_export:
.weak be_lo_from_bytea
be_lo_from_bytea:
.weak be_lo_get
be_lo_get:
.weak be_lo_get_fragment
be_lo_get_fragment:
.weak be_lo_import
be_lo_import:
.weak be_lo_import_with_oid
be_lo_import_with_oid:
.weak be_lo_lseek
be_lo_lseek:
.weak be_lo_lseek64
be_lo_lseek64:
.weak be_lo_open
be_lo_open:
.weak be_lo_put
be_lo_put:
.weak be_lo_tell
be_lo_tell:
.weak be_lo_tell64
be_lo_tell64:
.weak be_lo_truncate
be_lo_truncate:
.weak be_lo_truncate64
be_lo_truncate64:
.weak be_lo_unlink
be_lo_unlink:
.weak be_loread
be_loread:
.weak be_lowrite
be_lowrite:
.weak before_shmem_exit
before_shmem_exit:
.weak begin_tup_output_tupdesc
begin_tup_output_tupdesc:
.weak binary_decode
binary_decode:
.weak binary_encode
binary_encode:
.weak binary_upgrade_create_empty_extension
binary_upgrade_create_empty_extension:
.weak binary_upgrade_set_missing_value
binary_upgrade_set_missing_value:
.weak binary_upgrade_set_next_array_pg_type_oid
binary_upgrade_set_next_array_pg_type_oid:
.weak binary_upgrade_set_next_heap_pg_class_oid
binary_upgrade_set_next_heap_pg_class_oid:
.weak binary_upgrade_set_next_heap_relfilenode
binary_upgrade_set_next_heap_relfilenode:
.weak binary_upgrade_set_next_index_pg_class_oid
binary_upgrade_set_next_index_pg_class_oid:
.weak binary_upgrade_set_next_index_relfilenode
binary_upgrade_set_next_index_relfilenode:
.weak binary_upgrade_set_next_multirange_array_pg_type_oid
binary_upgrade_set_next_multirange_array_pg_type_oid:
.weak binary_upgrade_set_next_multirange_pg_type_oid
binary_upgrade_set_next_multirange_pg_type_oid:
.weak binary_upgrade_set_next_pg_authid_oid
binary_upgrade_set_next_pg_authid_oid:
.weak binary_upgrade_set_next_pg_enum_oid
binary_upgrade_set_next_pg_enum_oid:
.weak binary_upgrade_set_next_pg_tablespace_oid
binary_upgrade_set_next_pg_tablespace_oid:
.weak binary_upgrade_set_next_pg_type_oid
binary_upgrade_set_next_pg_type_oid:
.weak binary_upgrade_set_next_toast_pg_class_oid
binary_upgrade_set_next_toast_pg_class_oid:
.weak binary_upgrade_set_next_toast_relfilenode
binary_upgrade_set_next_toast_relfilenode:
.weak binary_upgrade_set_record_init_privs
binary_upgrade_set_record_init_privs:
.weak bit_and
bit_and:
.weak bit_bit_count
bit_bit_count:
.weak bit_in
bit_in:
.weak bit_or
bit_or:
.weak bit_out
bit_out:
.weak bit_recv
bit_recv:
.weak bit_send
bit_send:
.weak bitcat
bitcat:
.weak bitcmp
bitcmp:
.weak biteq
biteq:
.weak bitfromint4
bitfromint4:
.weak bitfromint8
bitfromint8:
.weak bitge
bitge:
.weak bitgetbit
bitgetbit:
.weak bitgt
bitgt:
.weak bitle
bitle:
.weak bitlength
bitlength:
.weak bitlt
bitlt:
.weak bitmap_hash
bitmap_hash:
.weak bitmap_match
bitmap_match:
.weak bitne
bitne:
.weak bitnot
bitnot:
.weak bitoctetlength
bitoctetlength:
.weak bitoverlay
bitoverlay:
.weak bitoverlay_no_len
bitoverlay_no_len:
.weak bitposition
bitposition:
.weak bitsetbit
bitsetbit:
.weak bitshiftleft
bitshiftleft:
.weak bitshiftright
bitshiftright:
.weak bitsubstr
bitsubstr:
.weak bitsubstr_no_len
bitsubstr_no_len:
.weak bittoint4
bittoint4:
.weak bittoint8
bittoint8:
.weak bittypmodin
bittypmodin:
.weak bittypmodout
bittypmodout:
.weak bitxor
bitxor:
.weak bmsToString
bmsToString:
.weak bms_add_member
bms_add_member:
.weak bms_add_members
bms_add_members:
.weak bms_add_range
bms_add_range:
.weak bms_compare
bms_compare:
.weak bms_copy
bms_copy:
.weak bms_del_member
bms_del_member:
.weak bms_del_members
bms_del_members:
.weak bms_difference
bms_difference:
.weak bms_equal
bms_equal:
.weak bms_free
bms_free:
.weak bms_get_singleton_member
bms_get_singleton_member:
.weak bms_hash_value
bms_hash_value:
.weak bms_int_members
bms_int_members:
.weak bms_intersect
bms_intersect:
.weak bms_is_member
bms_is_member:
.weak bms_is_subset
bms_is_subset:
.weak bms_join
bms_join:
.weak bms_make_singleton
bms_make_singleton:
.weak bms_member_index
bms_member_index:
.weak bms_membership
bms_membership:
.weak bms_next_member
bms_next_member:
.weak bms_nonempty_difference
bms_nonempty_difference:
.weak bms_num_members
bms_num_members:
.weak bms_overlap
bms_overlap:
.weak bms_overlap_list
bms_overlap_list:
.weak bms_prev_member
bms_prev_member:
.weak bms_singleton_member
bms_singleton_member:
.weak bms_subset_compare
bms_subset_compare:
.weak bms_union
bms_union:
.weak bool_accum
bool_accum:
.weak bool_accum_inv
bool_accum_inv:
.weak bool_alltrue
bool_alltrue:
.weak bool_anytrue
bool_anytrue:
.weak bool_int4
bool_int4:
.weak booland_statefunc
booland_statefunc:
.weak booleq
booleq:
.weak boolge
boolge:
.weak boolgt
boolgt:
.weak boolin
boolin:
.weak boolle
boolle:
.weak boollt
boollt:
.weak boolne
boolne:
.weak boolor_statefunc
boolor_statefunc:
.weak boolout
boolout:
.weak boolrecv
boolrecv:
.weak boolsend
boolsend:
.weak booltestsel
booltestsel:
.weak booltext
booltext:
.weak boolvarsel
boolvarsel:
.weak bounds_adjacent
bounds_adjacent:
.weak box_above
box_above:
.weak box_above_eq
box_above_eq:
.weak box_add
box_add:
.weak box_area
box_area:
.weak box_below
box_below:
.weak box_below_eq
box_below_eq:
.weak box_center
box_center:
.weak box_circle
box_circle:
.weak box_contain
box_contain:
.weak box_contain_pt
box_contain_pt:
.weak box_contained
box_contained:
.weak box_diagonal
box_diagonal:
.weak box_distance
box_distance:
.weak box_div
box_div:
.weak box_eq
box_eq:
.weak box_ge
box_ge:
.weak box_gt
box_gt:
.weak box_height
box_height:
.weak box_in
box_in:
.weak box_intersect
box_intersect:
.weak box_le
box_le:
.weak box_left
box_left:
.weak box_lt
box_lt:
.weak box_mul
box_mul:
.weak box_out
box_out:
.weak box_overabove
box_overabove:
.weak box_overbelow
box_overbelow:
.weak box_overlap
box_overlap:
.weak box_overleft
box_overleft:
.weak box_overright
box_overright:
.weak box_poly
box_poly:
.weak box_recv
box_recv:
.weak box_right
box_right:
.weak box_same
box_same:
.weak box_send
box_send:
.weak box_sub
box_sub:
.weak box_width
box_width:
.weak boxes_bound_box
boxes_bound_box:
.weak bpchar
bpchar:
.weak bpchar_larger
bpchar_larger:
.weak bpchar_name
bpchar_name:
.weak bpchar_pattern_ge
bpchar_pattern_ge:
.weak bpchar_pattern_gt
bpchar_pattern_gt:
.weak bpchar_pattern_le
bpchar_pattern_le:
.weak bpchar_pattern_lt
bpchar_pattern_lt:
.weak bpchar_smaller
bpchar_smaller:
.weak bpchar_sortsupport
bpchar_sortsupport:
.weak bpcharcmp
bpcharcmp:
.weak bpchareq
bpchareq:
.weak bpcharge
bpcharge:
.weak bpchargt
bpchargt:
.weak bpcharin
bpcharin:
.weak bpcharle
bpcharle:
.weak bpcharlen
bpcharlen:
.weak bpcharlt
bpcharlt:
.weak bpcharne
bpcharne:
.weak bpcharoctetlen
bpcharoctetlen:
.weak bpcharout
bpcharout:
.weak bpcharrecv
bpcharrecv:
.weak bpcharsend
bpcharsend:
.weak bpchartruelen
bpchartruelen:
.weak bpchartypmodin
bpchartypmodin:
.weak bpchartypmodout
bpchartypmodout:
.weak brin_bloom_add_value
brin_bloom_add_value:
.weak brin_bloom_consistent
brin_bloom_consistent:
.weak brin_bloom_opcinfo
brin_bloom_opcinfo:
.weak brin_bloom_options
brin_bloom_options:
.weak brin_bloom_summary_in
brin_bloom_summary_in:
.weak brin_bloom_summary_out
brin_bloom_summary_out:
.weak brin_bloom_summary_recv
brin_bloom_summary_recv:
.weak brin_bloom_summary_send
brin_bloom_summary_send:
.weak brin_bloom_union
brin_bloom_union:
.weak brin_desummarize_range
brin_desummarize_range:
.weak brin_inclusion_add_value
brin_inclusion_add_value:
.weak brin_inclusion_consistent
brin_inclusion_consistent:
.weak brin_inclusion_opcinfo
brin_inclusion_opcinfo:
.weak brin_inclusion_union
brin_inclusion_union:
.weak brin_minmax_add_value
brin_minmax_add_value:
.weak brin_minmax_consistent
brin_minmax_consistent:
.weak brin_minmax_multi_add_value
brin_minmax_multi_add_value:
.weak brin_minmax_multi_consistent
brin_minmax_multi_consistent:
.weak brin_minmax_multi_distance_date
brin_minmax_multi_distance_date:
.weak brin_minmax_multi_distance_float4
brin_minmax_multi_distance_float4:
.weak brin_minmax_multi_distance_float8
brin_minmax_multi_distance_float8:
.weak brin_minmax_multi_distance_inet
brin_minmax_multi_distance_inet:
.weak brin_minmax_multi_distance_int2
brin_minmax_multi_distance_int2:
.weak brin_minmax_multi_distance_int4
brin_minmax_multi_distance_int4:
.weak brin_minmax_multi_distance_int8
brin_minmax_multi_distance_int8:
.weak brin_minmax_multi_distance_interval
brin_minmax_multi_distance_interval:
.weak brin_minmax_multi_distance_macaddr
brin_minmax_multi_distance_macaddr:
.weak brin_minmax_multi_distance_macaddr8
brin_minmax_multi_distance_macaddr8:
.weak brin_minmax_multi_distance_numeric
brin_minmax_multi_distance_numeric:
.weak brin_minmax_multi_distance_pg_lsn
brin_minmax_multi_distance_pg_lsn:
.weak brin_minmax_multi_distance_tid
brin_minmax_multi_distance_tid:
.weak brin_minmax_multi_distance_time
brin_minmax_multi_distance_time:
.weak brin_minmax_multi_distance_timestamp
brin_minmax_multi_distance_timestamp:
.weak brin_minmax_multi_distance_timetz
brin_minmax_multi_distance_timetz:
.weak brin_minmax_multi_distance_uuid
brin_minmax_multi_distance_uuid:
.weak brin_minmax_multi_opcinfo
brin_minmax_multi_opcinfo:
.weak brin_minmax_multi_options
brin_minmax_multi_options:
.weak brin_minmax_multi_summary_in
brin_minmax_multi_summary_in:
.weak brin_minmax_multi_summary_out
brin_minmax_multi_summary_out:
.weak brin_minmax_multi_summary_recv
brin_minmax_multi_summary_recv:
.weak brin_minmax_multi_summary_send
brin_minmax_multi_summary_send:
.weak brin_minmax_multi_union
brin_minmax_multi_union:
.weak brin_minmax_opcinfo
brin_minmax_opcinfo:
.weak brin_minmax_union
brin_minmax_union:
.weak brin_summarize_new_values
brin_summarize_new_values:
.weak brin_summarize_range
brin_summarize_range:
.weak brinhandler
brinhandler:
.weak bsearch_arg
bsearch_arg:
.weak btarraycmp
btarraycmp:
.weak btboolcmp
btboolcmp:
.weak btbpchar_pattern_cmp
btbpchar_pattern_cmp:
.weak btbpchar_pattern_sortsupport
btbpchar_pattern_sortsupport:
.weak btcharcmp
btcharcmp:
.weak btequalimage
btequalimage:
.weak btfloat48cmp
btfloat48cmp:
.weak btfloat4cmp
btfloat4cmp:
.weak btfloat4sortsupport
btfloat4sortsupport:
.weak btfloat84cmp
btfloat84cmp:
.weak btfloat8cmp
btfloat8cmp:
.weak btfloat8sortsupport
btfloat8sortsupport:
.weak bthandler
bthandler:
.weak btint24cmp
btint24cmp:
.weak btint28cmp
btint28cmp:
.weak btint2cmp
btint2cmp:
.weak btint2sortsupport
btint2sortsupport:
.weak btint42cmp
btint42cmp:
.weak btint48cmp
btint48cmp:
.weak btint4cmp
btint4cmp:
.weak btint4sortsupport
btint4sortsupport:
.weak btint82cmp
btint82cmp:
.weak btint84cmp
btint84cmp:
.weak btint8cmp
btint8cmp:
.weak btint8sortsupport
btint8sortsupport:
.weak btnamecmp
btnamecmp:
.weak btnamesortsupport
btnamesortsupport:
.weak btnametextcmp
btnametextcmp:
.weak btoidcmp
btoidcmp:
.weak btoidsortsupport
btoidsortsupport:
.weak btoidvectorcmp
btoidvectorcmp:
.weak btrecordcmp
btrecordcmp:
.weak btrecordimagecmp
btrecordimagecmp:
.weak btrim
btrim:
.weak btrim1
btrim1:
.weak bttext_pattern_cmp
bttext_pattern_cmp:
.weak bttext_pattern_sortsupport
bttext_pattern_sortsupport:
.weak bttextcmp
bttextcmp:
.weak bttextnamecmp
bttextnamecmp:
.weak bttextsortsupport
bttextsortsupport:
.weak bttidcmp
bttidcmp:
.weak btvarstrequalimage
btvarstrequalimage:
.weak build_attrmap_by_name
build_attrmap_by_name:
.weak build_attrmap_by_name_if_req
build_attrmap_by_name_if_req:
.weak build_attrmap_by_position
build_attrmap_by_position:
.weak build_backup_content
build_backup_content:
.weak build_base_rel_tlists
build_base_rel_tlists:
.weak build_child_join_rel
build_child_join_rel:
.weak build_column_default
build_column_default:
.weak build_expression_pathkey
build_expression_pathkey:
.weak build_function_result_tupdesc_d
build_function_result_tupdesc_d:
.weak build_function_result_tupdesc_t
build_function_result_tupdesc_t:
.weak build_guc_variables
build_guc_variables:
.weak build_implied_join_equality
build_implied_join_equality:
.weak build_index_pathkeys
build_index_pathkeys:
.weak build_join_pathkeys
build_join_pathkeys:
.weak build_join_rel
build_join_rel:
.weak build_local_reloptions
build_local_reloptions:
.weak build_partition_pathkeys
build_partition_pathkeys:
.weak build_physical_tlist
build_physical_tlist:
.weak build_reloptions
build_reloptions:
.weak build_simple_rel
build_simple_rel:
.weak buildint2vector
buildint2vector:
.weak buildoidvector
buildoidvector:
.weak byteaGetBit
byteaGetBit:
.weak byteaGetByte
byteaGetByte:
.weak byteaSetBit
byteaSetBit:
.weak byteaSetByte
byteaSetByte:
.weak bytea_bit_count
bytea_bit_count:
.weak bytea_sortsupport
bytea_sortsupport:
.weak bytea_string_agg_finalfn
bytea_string_agg_finalfn:
.weak bytea_string_agg_transfn
bytea_string_agg_transfn:
.weak bytea_substr
bytea_substr:
.weak bytea_substr_no_len
bytea_substr_no_len:
.weak byteacat
byteacat:
.weak byteacmp
byteacmp:
.weak byteaeq
byteaeq:
.weak byteage
byteage:
.weak byteagt
byteagt:
.weak byteain
byteain:
.weak byteale
byteale:
.weak bytealike
bytealike:
.weak bytealt
bytealt:
.weak bytealtrim
bytealtrim:
.weak byteane
byteane:
.weak byteanlike
byteanlike:
.weak byteaoctetlen
byteaoctetlen:
.weak byteaout
byteaout:
.weak byteaoverlay
byteaoverlay:
.weak byteaoverlay_no_len
byteaoverlay_no_len:
.weak byteapos
byteapos:
.weak bytearecv
bytearecv:
.weak byteartrim
byteartrim:
.weak byteasend
byteasend:
.weak byteatrim
byteatrim:
.weak calc_nestloop_required_outer
calc_nestloop_required_outer:
.weak calc_non_nestloop_required_outer
calc_non_nestloop_required_outer:
.weak can_coerce_type
can_coerce_type:
.weak cancel_before_shmem_exit
cancel_before_shmem_exit:
.weak cancel_on_dsm_detach
cancel_on_dsm_detach:
.weak cancel_parser_errposition_callback
cancel_parser_errposition_callback:
.weak cancel_scanner_errposition_callback
cancel_scanner_errposition_callback:
.weak canonicalize_ec_expression
canonicalize_ec_expression:
.weak canonicalize_path
canonicalize_path:
.weak canonicalize_path_enc
canonicalize_path_enc:
.weak canonicalize_qual
canonicalize_qual:
.weak cash_cmp
cash_cmp:
.weak cash_div_cash
cash_div_cash:
.weak cash_div_flt4
cash_div_flt4:
.weak cash_div_flt8
cash_div_flt8:
.weak cash_div_int2
cash_div_int2:
.weak cash_div_int4
cash_div_int4:
.weak cash_div_int8
cash_div_int8:
.weak cash_eq
cash_eq:
.weak cash_ge
cash_ge:
.weak cash_gt
cash_gt:
.weak cash_in
cash_in:
.weak cash_le
cash_le:
.weak cash_lt
cash_lt:
.weak cash_mi
cash_mi:
.weak cash_mul_flt4
cash_mul_flt4:
.weak cash_mul_flt8
cash_mul_flt8:
.weak cash_mul_int2
cash_mul_int2:
.weak cash_mul_int4
cash_mul_int4:
.weak cash_mul_int8
cash_mul_int8:
.weak cash_ne
cash_ne:
.weak cash_numeric
cash_numeric:
.weak cash_out
cash_out:
.weak cash_pl
cash_pl:
.weak cash_recv
cash_recv:
.weak cash_send
cash_send:
.weak cash_words
cash_words:
.weak cashlarger
cashlarger:
.weak cashsmaller
cashsmaller:
.weak changeDependenciesOf
changeDependenciesOf:
.weak changeDependenciesOn
changeDependenciesOn:
.weak changeDependencyFor
changeDependencyFor:
.weak changeDependencyOnOwner
changeDependencyOnOwner:
.weak changeDependencyOnTablespace
changeDependencyOnTablespace:
.weak change_plan_targetlist
change_plan_targetlist:
.weak char_bpchar
char_bpchar:
.weak char_text
char_text:
.weak chareq
chareq:
.weak charge
charge:
.weak chargt
chargt:
.weak charin
charin:
.weak charle
charle:
.weak charlt
charlt:
.weak charne
charne:
.weak charout
charout:
.weak charrecv
charrecv:
.weak charsend
charsend:
.weak chartoi4
chartoi4:
.weak checkDataDir
checkDataDir:
.weak checkExprHasSubLink
checkExprHasSubLink:
.weak checkMembershipInCurrentExtension
checkMembershipInCurrentExtension:
.weak checkNameSpaceConflicts
checkNameSpaceConflicts:
.weak checkSharedDependencies
checkSharedDependencies:
.weak checkTempNamespaceStatus
checkTempNamespaceStatus:
.weak check_GUC_name_for_parameter_acl
check_GUC_name_for_parameter_acl:
.weak check_can_set_role
check_can_set_role:
.weak check_createrole_self_grant
check_createrole_self_grant:
.weak check_default_partition_contents
check_default_partition_contents:
.weak check_enable_rls
check_enable_rls:
.weak check_encoding_conversion_args
check_encoding_conversion_args:
.weak check_encoding_locale_matches
check_encoding_locale_matches:
.weak check_exclusion_constraint
check_exclusion_constraint:
.weak check_functions_in_node
check_functions_in_node:
.weak check_generic_type_consistency
check_generic_type_consistency:
.weak check_index_predicates
check_index_predicates:
.weak check_log_duration
check_log_duration:
.weak check_log_of_query
check_log_of_query:
.weak check_new_partition_bound
check_new_partition_bound:
.weak check_object_ownership
check_object_ownership:
.weak check_of_type
check_of_type:
.weak check_on_shmem_exit_lists_are_empty
check_on_shmem_exit_lists_are_empty:
.weak check_rolespec_name
check_rolespec_name:
.weak check_srf_call_placement
check_srf_call_placement:
.weak check_stack_depth
check_stack_depth:
.weak check_valid_internal_signature
check_valid_internal_signature:
.weak check_valid_oidvector
check_valid_oidvector:
.weak check_valid_polymorphic_signature
check_valid_polymorphic_signature:
.weak choose_best_statistics
choose_best_statistics:
.weak cideq
cideq:
.weak cidin
cidin:
.weak cidout
cidout:
.weak cidr_abbrev
cidr_abbrev:
.weak cidr_in
cidr_in:
.weak cidr_out
cidr_out:
.weak cidr_recv
cidr_recv:
.weak cidr_send
cidr_send:
.weak cidr_set_masklen
cidr_set_masklen:
.weak cidrecv
cidrecv:
.weak cidsend
cidsend:
.weak circle_above
circle_above:
.weak circle_add_pt
circle_add_pt:
.weak circle_area
circle_area:
.weak circle_below
circle_below:
.weak circle_box
circle_box:
.weak circle_center
circle_center:
.weak circle_contain
circle_contain:
.weak circle_contain_pt
circle_contain_pt:
.weak circle_contained
circle_contained:
.weak circle_diameter
circle_diameter:
.weak circle_distance
circle_distance:
.weak circle_div_pt
circle_div_pt:
.weak circle_eq
circle_eq:
.weak circle_ge
circle_ge:
.weak circle_gt
circle_gt:
.weak circle_in
circle_in:
.weak circle_le
circle_le:
.weak circle_left
circle_left:
.weak circle_lt
circle_lt:
.weak circle_mul_pt
circle_mul_pt:
.weak circle_ne
circle_ne:
.weak circle_out
circle_out:
.weak circle_overabove
circle_overabove:
.weak circle_overbelow
circle_overbelow:
.weak circle_overlap
circle_overlap:
.weak circle_overleft
circle_overleft:
.weak circle_overright
circle_overright:
.weak circle_poly
circle_poly:
.weak circle_radius
circle_radius:
.weak circle_recv
circle_recv:
.weak circle_right
circle_right:
.weak circle_same
circle_same:
.weak circle_send
circle_send:
.weak circle_sub_pt
circle_sub_pt:
.weak clamp_cardinality_to_long
clamp_cardinality_to_long:
.weak clamp_row_est
clamp_row_est:
.weak clause_selectivity
clause_selectivity:
.weak clause_selectivity_ext
clause_selectivity_ext:
.weak clauselist_selectivity
clauselist_selectivity:
.weak clauselist_selectivity_ext
clauselist_selectivity_ext:
.weak clean_NOT
clean_NOT:
.weak clean_ipv6_addr
clean_ipv6_addr:
.weak cleanup_path
cleanup_path:
.weak cleanup_tsquery_stopwords
cleanup_tsquery_stopwords:
.weak clock_timestamp
clock_timestamp:
.weak clog_desc
clog_desc:
.weak clog_identify
clog_identify:
.weak clog_redo
clog_redo:
.weak clogsyncfiletag
clogsyncfiletag:
.weak closeAllVfds
closeAllVfds:
.weak close_ls
close_ls:
.weak close_lseg
close_lseg:
.weak close_pb
close_pb:
.weak close_pl
close_pl:
.weak close_ps
close_ps:
.weak close_sb
close_sb:
.weak close_tsvector_parser
close_tsvector_parser:
.weak coerce_null_to_domain
coerce_null_to_domain:
.weak coerce_to_boolean
coerce_to_boolean:
.weak coerce_to_common_type
coerce_to_common_type:
.weak coerce_to_domain
coerce_to_domain:
.weak coerce_to_specific_type
coerce_to_specific_type:
.weak coerce_to_specific_type_typmod
coerce_to_specific_type_typmod:
.weak coerce_to_target_type
coerce_to_target_type:
.weak coerce_type
coerce_type:
.weak colNameToVar
colNameToVar:
.weak collations_agree_on_equality
collations_agree_on_equality:
.weak collprovider_name
collprovider_name:
.weak command_tag_display_rowcount
command_tag_display_rowcount:
.weak command_tag_event_trigger_ok
command_tag_event_trigger_ok:
.weak command_tag_table_rewrite_ok
command_tag_table_rewrite_ok:
.weak commit_ts_desc
commit_ts_desc:
.weak commit_ts_identify
commit_ts_identify:
.weak commit_ts_redo
commit_ts_redo:
.weak committssyncfiletag
committssyncfiletag:
.weak commute_restrictinfo
commute_restrictinfo:
.weak compareJsonbContainers
compareJsonbContainers:
.weak compareWordEntryPos
compareWordEntryPos:
.weak compare_fractional_path_costs
compare_fractional_path_costs:
.weak compare_path_costs
compare_path_costs:
.weak compare_pathkeys
compare_pathkeys:
.weak compare_values_of_enum
compare_values_of_enum:
.weak comparison_ops_are_compatible
comparison_ops_are_compatible:
.weak compatible_oper
compatible_oper:
.weak compatible_oper_opid
compatible_oper_opid:
.weak compute_bitmap_pages
compute_bitmap_pages:
.weak compute_parallel_worker
compute_parallel_worker:
.weak compute_partition_hash_value
compute_partition_hash_value:
.weak compute_semi_anti_join_factors
compute_semi_anti_join_factors:
.weak config_enum_get_options
config_enum_get_options:
.weak config_enum_lookup_by_name
config_enum_lookup_by_name:
.weak config_enum_lookup_by_value
config_enum_lookup_by_value:
.weak construct_array
construct_array:
.weak construct_array_builtin
construct_array_builtin:
.weak construct_empty_array
construct_empty_array:
.weak construct_empty_expanded_array
construct_empty_expanded_array:
.weak construct_md_array
construct_md_array:
.weak construct_point
construct_point:
.weak contain_agg_clause
contain_agg_clause:
.weak contain_aggs_of_level
contain_aggs_of_level:
.weak contain_exec_param
contain_exec_param:
.weak contain_leaked_vars
contain_leaked_vars:
.weak contain_mutable_functions
contain_mutable_functions:
.weak contain_mutable_functions_after_planning
contain_mutable_functions_after_planning:
.weak contain_nonstrict_functions
contain_nonstrict_functions:
.weak contain_subplans
contain_subplans:
.weak contain_var_clause
contain_var_clause:
.weak contain_vars_of_level
contain_vars_of_level:
.weak contain_volatile_functions
contain_volatile_functions:
.weak contain_volatile_functions_after_planning
contain_volatile_functions_after_planning:
.weak contain_volatile_functions_not_nextval
contain_volatile_functions_not_nextval:
.weak contain_window_function
contain_window_function:
.weak contain_windowfuncs
contain_windowfuncs:
.weak contjoinsel
contjoinsel:
.weak contsel
contsel:
.weak convert_GUC_name_for_parameter_acl
convert_GUC_name_for_parameter_acl:
.weak convert_network_to_scalar
convert_network_to_scalar:
.weak convert_saop_to_hashed_saop
convert_saop_to_hashed_saop:
.weak convert_subquery_pathkeys
convert_subquery_pathkeys:
.weak convert_tuples_by_name
convert_tuples_by_name:
.weak convert_tuples_by_name_attrmap
convert_tuples_by_name_attrmap:
.weak convert_tuples_by_position
convert_tuples_by_position:
.weak cookDefault
cookDefault:
.weak copyObjectImpl
copyObjectImpl:
.weak copyParamList
copyParamList:
.weak copyTemplateDependencies
copyTemplateDependencies:
.weak copy_pathtarget
copy_pathtarget:
.weak core_yylex
core_yylex:
.weak cost_agg
cost_agg:
.weak cost_append
cost_append:
.weak cost_bitmap_and_node
cost_bitmap_and_node:
.weak cost_bitmap_heap_scan
cost_bitmap_heap_scan:
.weak cost_bitmap_or_node
cost_bitmap_or_node:
.weak cost_bitmap_tree_node
cost_bitmap_tree_node:
.weak cost_ctescan
cost_ctescan:
.weak cost_functionscan
cost_functionscan:
.weak cost_gather
cost_gather:
.weak cost_gather_merge
cost_gather_merge:
.weak cost_group
cost_group:
.weak cost_incremental_sort
cost_incremental_sort:
.weak cost_index
cost_index:
.weak cost_material
cost_material:
.weak cost_merge_append
cost_merge_append:
.weak cost_namedtuplestorescan
cost_namedtuplestorescan:
.weak cost_qual_eval
cost_qual_eval:
.weak cost_qual_eval_node
cost_qual_eval_node:
.weak cost_recursive_union
cost_recursive_union:
.weak cost_resultscan
cost_resultscan:
.weak cost_samplescan
cost_samplescan:
.weak cost_seqscan
cost_seqscan:
.weak cost_sort
cost_sort:
.weak cost_subplan
cost_subplan:
.weak cost_subqueryscan
cost_subqueryscan:
.weak cost_tablefuncscan
cost_tablefuncscan:
.weak cost_tidrangescan
cost_tidrangescan:
.weak cost_tidscan
cost_tidscan:
.weak cost_valuesscan
cost_valuesscan:
.weak cost_windowagg
cost_windowagg:
.weak count_nonjunk_tlist_entries
count_nonjunk_tlist_entries:
.weak cr_circle
cr_circle:
.weak create_agg_path
create_agg_path:
.weak create_append_path
create_append_path:
.weak create_bitmap_and_path
create_bitmap_and_path:
.weak create_bitmap_heap_path
create_bitmap_heap_path:
.weak create_bitmap_or_path
create_bitmap_or_path:
.weak create_ctescan_path
create_ctescan_path:
.weak create_empty_pathtarget
create_empty_pathtarget:
.weak create_foreign_join_path
create_foreign_join_path:
.weak create_foreign_upper_path
create_foreign_upper_path:
.weak create_foreignscan_path
create_foreignscan_path:
.weak create_functionscan_path
create_functionscan_path:
.weak create_gather_merge_path
create_gather_merge_path:
.weak create_gather_path
create_gather_path:
.weak create_group_path
create_group_path:
.weak create_group_result_path
create_group_result_path:
.weak create_groupingsets_path
create_groupingsets_path:
.weak create_hashjoin_path
create_hashjoin_path:
.weak create_incremental_sort_path
create_incremental_sort_path:
.weak create_index_path
create_index_path:
.weak create_index_paths
create_index_paths:
.weak create_lateral_join_info
create_lateral_join_info:
.weak create_limit_path
create_limit_path:
.weak create_lockrows_path
create_lockrows_path:
.weak create_material_path
create_material_path:
.weak create_memoize_path
create_memoize_path:
.weak create_merge_append_path
create_merge_append_path:
.weak create_mergejoin_path
create_mergejoin_path:
.weak create_minmaxagg_path
create_minmaxagg_path:
.weak create_modifytable_path
create_modifytable_path:
.weak create_namedtuplestorescan_path
create_namedtuplestorescan_path:
.weak create_nestloop_path
create_nestloop_path:
.weak create_partial_bitmap_paths
create_partial_bitmap_paths:
.weak create_plan
create_plan:
.weak create_projection_path
create_projection_path:
.weak create_queryEnv
create_queryEnv:
.weak create_recursiveunion_path
create_recursiveunion_path:
.weak create_resultscan_path
create_resultscan_path:
.weak create_samplescan_path
create_samplescan_path:
.weak create_seqscan_path
create_seqscan_path:
.weak create_set_projection_path
create_set_projection_path:
.weak create_setop_path
create_setop_path:
.weak create_sort_path
create_sort_path:
.weak create_subqueryscan_path
create_subqueryscan_path:
.weak create_tablefuncscan_path
create_tablefuncscan_path:
.weak create_tidrangescan_path
create_tidrangescan_path:
.weak create_tidscan_path
create_tidscan_path:
.weak create_tidscan_paths
create_tidscan_paths:
.weak create_unique_path
create_unique_path:
.weak create_upper_unique_path
create_upper_unique_path:
.weak create_valuesscan_path
create_valuesscan_path:
.weak create_windowagg_path
create_windowagg_path:
.weak create_worktablescan_path
create_worktablescan_path:
.weak createdb
createdb:
.weak cstring_in
cstring_in:
.weak cstring_out
cstring_out:
.weak cstring_recv
cstring_recv:
.weak cstring_send
cstring_send:
.weak cstring_to_text
cstring_to_text:
.weak cstring_to_text_with_len
cstring_to_text_with_len:
.weak current_database
current_database:
.weak current_query
current_query:
.weak current_schema
current_schema:
.weak current_schemas
current_schemas:
.weak current_user
current_user:
.weak currtid_byrelname
currtid_byrelname:
.weak currval_oid
currval_oid:
.weak cursor_to_xml
cursor_to_xml:
.weak cursor_to_xmlschema
cursor_to_xmlschema:
.weak dacos
dacos:
.weak dacosd
dacosd:
.weak dacosh
dacosh:
.weak dasin
dasin:
.weak dasind
dasind:
.weak dasinh
dasinh:
.weak data_sync_elevel
data_sync_elevel:
.weak database_is_invalid_form
database_is_invalid_form:
.weak database_is_invalid_oid
database_is_invalid_oid:
.weak database_to_xml
database_to_xml:
.weak database_to_xml_and_xmlschema
database_to_xml_and_xmlschema:
.weak database_to_xmlschema
database_to_xmlschema:
.weak datan
datan:
.weak datan2
datan2:
.weak datan2d
datan2d:
.weak datand
datand:
.weak datanh
datanh:
.weak date2isoweek
date2isoweek:
.weak date2isoyear
date2isoyear:
.weak date2isoyearday
date2isoyearday:
.weak date2j
date2j:
.weak date2timestamp_no_overflow
date2timestamp_no_overflow:
.weak date2timestamp_opt_overflow
date2timestamp_opt_overflow:
.weak date2timestamptz_opt_overflow
date2timestamptz_opt_overflow:
.weak date_cmp
date_cmp:
.weak date_cmp_timestamp
date_cmp_timestamp:
.weak date_cmp_timestamp_internal
date_cmp_timestamp_internal:
.weak date_cmp_timestamptz
date_cmp_timestamptz:
.weak date_cmp_timestamptz_internal
date_cmp_timestamptz_internal:
.weak date_eq
date_eq:
.weak date_eq_timestamp
date_eq_timestamp:
.weak date_eq_timestamptz
date_eq_timestamptz:
.weak date_finite
date_finite:
.weak date_ge
date_ge:
.weak date_ge_timestamp
date_ge_timestamp:
.weak date_ge_timestamptz
date_ge_timestamptz:
.weak date_gt
date_gt:
.weak date_gt_timestamp
date_gt_timestamp:
.weak date_gt_timestamptz
date_gt_timestamptz:
.weak date_in
date_in:
.weak date_larger
date_larger:
.weak date_le
date_le:
.weak date_le_timestamp
date_le_timestamp:
.weak date_le_timestamptz
date_le_timestamptz:
.weak date_lt
date_lt:
.weak date_lt_timestamp
date_lt_timestamp:
.weak date_lt_timestamptz
date_lt_timestamptz:
.weak date_mi
date_mi:
.weak date_mi_interval
date_mi_interval:
.weak date_mii
date_mii:
.weak date_ne
date_ne:
.weak date_ne_timestamp
date_ne_timestamp:
.weak date_ne_timestamptz
date_ne_timestamptz:
.weak date_out
date_out:
.weak date_pl_interval
date_pl_interval:
.weak date_pli
date_pli:
.weak date_recv
date_recv:
.weak date_send
date_send:
.weak date_smaller
date_smaller:
.weak date_sortsupport
date_sortsupport:
.weak date_timestamp
date_timestamp:
.weak date_timestamptz
date_timestamptz:
.weak daterange_canonical
daterange_canonical:
.weak daterange_subdiff
daterange_subdiff:
.weak datetime_timestamp
datetime_timestamp:
.weak datetimetz_timestamptz
datetimetz_timestamptz:
.weak dcbrt
dcbrt:
.weak dceil
dceil:
.weak dclist_count
dclist_count:
.weak dclist_delete_from
dclist_delete_from:
.weak dclist_delete_from_thoroughly
dclist_delete_from_thoroughly:
.weak dclist_has_next
dclist_has_next:
.weak dclist_has_prev
dclist_has_prev:
.weak dclist_head_element_off
dclist_head_element_off:
.weak dclist_head_node
dclist_head_node:
.weak dclist_init
dclist_init:
.weak dclist_insert_after
dclist_insert_after:
.weak dclist_insert_before
dclist_insert_before:
.weak dclist_is_empty
dclist_is_empty:
.weak dclist_move_head
dclist_move_head:
.weak dclist_move_tail
dclist_move_tail:
.weak dclist_next_node
dclist_next_node:
.weak dclist_pop_head_node
dclist_pop_head_node:
.weak dclist_prev_node
dclist_prev_node:
.weak dclist_push_head
dclist_push_head:
.weak dclist_push_tail
dclist_push_tail:
.weak dclist_tail_element_off
dclist_tail_element_off:
.weak dclist_tail_node
dclist_tail_node:
.weak dcos
dcos:
.weak dcosd
dcosd:
.weak dcosh
dcosh:
.weak dcot
dcot:
.weak dcotd
dcotd:
.weak deconstruct_array
deconstruct_array:
.weak deconstruct_array_builtin
deconstruct_array_builtin:
.weak deconstruct_expanded_array
deconstruct_expanded_array:
.weak deconstruct_expanded_record
deconstruct_expanded_record:
.weak deconstruct_jointree
deconstruct_jointree:
.weak defGetBoolean
defGetBoolean:
.weak defGetInt32
defGetInt32:
.weak defGetInt64
defGetInt64:
.weak defGetNumeric
defGetNumeric:
.weak defGetObjectId
defGetObjectId:
.weak defGetQualifiedName
defGetQualifiedName:
.weak defGetString
defGetString:
.weak defGetStringList
defGetStringList:
.weak defGetTypeLength
defGetTypeLength:
.weak defGetTypeName
defGetTypeName:
.weak default_reloptions
default_reloptions:
.weak degrees
degrees:
.weak deleteDependencyRecordsFor
deleteDependencyRecordsFor:
.weak deleteDependencyRecordsForClass
deleteDependencyRecordsForClass:
.weak deleteDependencyRecordsForSpecific
deleteDependencyRecordsForSpecific:
.weak deleteSharedDependencyRecordsFor
deleteSharedDependencyRecordsFor:
.weak deparse_context_for
deparse_context_for:
.weak deparse_context_for_plan_tree
deparse_context_for_plan_tree:
.weak deparse_expression
deparse_expression:
.weak dependencies_clauselist_selectivity
dependencies_clauselist_selectivity:
.weak derf
derf:
.weak derfc
derfc:
.weak deserialize_deflist
deserialize_deflist:
.weak detoast_attr
detoast_attr:
.weak detoast_attr_slice
detoast_attr_slice:
.weak detoast_external_attr
detoast_external_attr:
.weak dexp
dexp:
.weak dfloor
dfloor:
.weak directory_is_empty
directory_is_empty:
.weak dispell_init
dispell_init:
.weak dispell_lexize
dispell_lexize:
.weak dist_bp
dist_bp:
.weak dist_bs
dist_bs:
.weak dist_cpoint
dist_cpoint:
.weak dist_cpoly
dist_cpoly:
.weak dist_lp
dist_lp:
.weak dist_ls
dist_ls:
.weak dist_pathp
dist_pathp:
.weak dist_pb
dist_pb:
.weak dist_pc
dist_pc:
.weak dist_pl
dist_pl:
.weak dist_polyc
dist_polyc:
.weak dist_polyp
dist_polyp:
.weak dist_ppath
dist_ppath:
.weak dist_ppoly
dist_ppoly:
.weak dist_ps
dist_ps:
.weak dist_sb
dist_sb:
.weak dist_sl
dist_sl:
.weak dist_sp
dist_sp:
.weak distance
distance:
.weak distribute_restrictinfo_to_rels
distribute_restrictinfo_to_rels:
.weak distribute_row_identity_vars
distribute_row_identity_vars:
.weak dlist_delete
dlist_delete:
.weak dlist_delete_from
dlist_delete_from:
.weak dlist_delete_from_thoroughly
dlist_delete_from_thoroughly:
.weak dlist_delete_thoroughly
dlist_delete_thoroughly:
.weak dlist_has_next
dlist_has_next:
.weak dlist_has_prev
dlist_has_prev:
.weak dlist_head_element_off
dlist_head_element_off:
.weak dlist_head_node
dlist_head_node:
.weak dlist_init
dlist_init:
.weak dlist_insert_after
dlist_insert_after:
.weak dlist_insert_before
dlist_insert_before:
.weak dlist_is_empty
dlist_is_empty:
.weak dlist_move_head
dlist_move_head:
.weak dlist_move_tail
dlist_move_tail:
.weak dlist_next_node
dlist_next_node:
.weak dlist_node_init
dlist_node_init:
.weak dlist_node_is_detached
dlist_node_is_detached:
.weak dlist_pop_head_node
dlist_pop_head_node:
.weak dlist_prev_node
dlist_prev_node:
.weak dlist_push_head
dlist_push_head:
.weak dlist_push_tail
dlist_push_tail:
.weak dlist_tail_element_off
dlist_tail_element_off:
.weak dlist_tail_node
dlist_tail_node:
.weak dlog1
dlog1:
.weak dlog10
dlog10:
.weak do_pg_abort_backup
do_pg_abort_backup:
.weak do_pg_backup_start
do_pg_backup_start:
.weak do_pg_backup_stop
do_pg_backup_stop:
.weak do_text_output_multiline
do_text_output_multiline:
.weak do_tup_output
do_tup_output:
.weak domain_check
domain_check:
.weak domain_in
domain_in:
.weak domain_recv
domain_recv:
.weak downcase_identifier
downcase_identifier:
.weak downcase_truncate_identifier
downcase_truncate_identifier:
.weak dpow
dpow:
.weak drandom
drandom:
.weak drandom_normal
drandom_normal:
.weak dropDatabaseDependencies
dropDatabaseDependencies:
.weak dropdb
dropdb:
.weak dround
dround:
.weak dsa_allocate_extended
dsa_allocate_extended:
.weak dsa_attach
dsa_attach:
.weak dsa_attach_in_place
dsa_attach_in_place:
.weak dsa_create
dsa_create:
.weak dsa_create_in_place
dsa_create_in_place:
.weak dsa_detach
dsa_detach:
.weak dsa_dump
dsa_dump:
.weak dsa_free
dsa_free:
.weak dsa_get_address
dsa_get_address:
.weak dsa_get_handle
dsa_get_handle:
.weak dsa_minimum_size
dsa_minimum_size:
.weak dsa_on_dsm_detach_release_in_place
dsa_on_dsm_detach_release_in_place:
.weak dsa_on_shmem_exit_release_in_place
dsa_on_shmem_exit_release_in_place:
.weak dsa_pin
dsa_pin:
.weak dsa_pin_mapping
dsa_pin_mapping:
.weak dsa_release_in_place
dsa_release_in_place:
.weak dsa_set_size_limit
dsa_set_size_limit:
.weak dsa_trim
dsa_trim:
.weak dsa_unpin
dsa_unpin:
.weak dsign
dsign:
.weak dsimple_init
dsimple_init:
.weak dsimple_lexize
dsimple_lexize:
.weak dsin
dsin:
.weak dsind
dsind:
.weak dsinh
dsinh:
.weak dsm_attach
dsm_attach:
.weak dsm_backend_shutdown
dsm_backend_shutdown:
.weak dsm_cleanup_using_control_segment
dsm_cleanup_using_control_segment:
.weak dsm_create
dsm_create:
.weak dsm_detach
dsm_detach:
.weak dsm_detach_all
dsm_detach_all:
.weak dsm_estimate_size
dsm_estimate_size:
.weak dsm_find_mapping
dsm_find_mapping:
.weak dsm_impl_op
dsm_impl_op:
.weak dsm_impl_pin_segment
dsm_impl_pin_segment:
.weak dsm_impl_unpin_segment
dsm_impl_unpin_segment:
.weak dsm_pin_mapping
dsm_pin_mapping:
.weak dsm_pin_segment
dsm_pin_segment:
.weak dsm_postmaster_startup
dsm_postmaster_startup:
.weak dsm_segment_address
dsm_segment_address:
.weak dsm_segment_handle
dsm_segment_handle:
.weak dsm_segment_map_length
dsm_segment_map_length:
.weak dsm_shmem_init
dsm_shmem_init:
.weak dsm_unpin_mapping
dsm_unpin_mapping:
.weak dsm_unpin_segment
dsm_unpin_segment:
.weak dsqrt
dsqrt:
.weak dsynonym_init
dsynonym_init:
.weak dsynonym_lexize
dsynonym_lexize:
.weak dt2time
dt2time:
.weak dtan
dtan:
.weak dtand
dtand:
.weak dtanh
dtanh:
.weak dtof
dtof:
.weak dtoi2
dtoi2:
.weak dtoi4
dtoi4:
.weak dtoi8
dtoi8:
.weak dtrunc
dtrunc:
.weak durable_rename
durable_rename:
.weak durable_unlink
durable_unlink:
.weak eclass_useful_for_merging
eclass_useful_for_merging:
.weak elem_contained_by_multirange
elem_contained_by_multirange:
.weak elem_contained_by_range
elem_contained_by_range:
.weak elog_node_display
elog_node_display:
.weak encrypt_password
encrypt_password:
.weak end_MultiFuncCall
end_MultiFuncCall:
.weak end_tup_output
end_tup_output:
.weak enforce_generic_type_consistency
enforce_generic_type_consistency:
.weak enlargeStringInfo
enlargeStringInfo:
.weak enum_cmp
enum_cmp:
.weak enum_eq
enum_eq:
.weak enum_first
enum_first:
.weak enum_ge
enum_ge:
.weak enum_gt
enum_gt:
.weak enum_in
enum_in:
.weak enum_larger
enum_larger:
.weak enum_last
enum_last:
.weak enum_le
enum_le:
.weak enum_lt
enum_lt:
.weak enum_ne
enum_ne:
.weak enum_out
enum_out:
.weak enum_range_all
enum_range_all:
.weak enum_range_bounds
enum_range_bounds:
.weak enum_recv
enum_recv:
.weak enum_send
enum_send:
.weak enum_smaller
enum_smaller:
.weak eqjoinsel
eqjoinsel:
.weak eqsel
eqsel:
.weak equal
equal:
.weak equalTupleDescs
equalTupleDescs:
.weak equality_ops_are_compatible
equality_ops_are_compatible:
.weak err_generic_string
err_generic_string:
.weak errbacktrace
errbacktrace:
.weak errcode_for_file_access
errcode_for_file_access:
.weak errcode_for_socket_access
errcode_for_socket_access:
.weak errdatatype
errdatatype:
.weak errdetail_internal
errdetail_internal:
.weak errdetail_log
errdetail_log:
.weak errdetail_log_plural
errdetail_log_plural:
.weak errdetail_plural
errdetail_plural:
.weak errdetail_relkind_not_supported
errdetail_relkind_not_supported:
.weak errdomainconstraint
errdomainconstraint:
.weak errhidecontext
errhidecontext:
.weak errhidestmt
errhidestmt:
.weak errhint_plural
errhint_plural:
.weak errmsg_internal
errmsg_internal:
.weak errmsg_plural
errmsg_plural:
.weak errorConflictingDefElem
errorConflictingDefElem:
.weak errorMissingColumn
errorMissingColumn:
.weak errorMissingRTE
errorMissingRTE:
.weak error_severity
error_severity:
.weak errposition
errposition:
.weak errsave_finish
errsave_finish:
.weak errsave_start
errsave_start:
.weak errstart_cold
errstart_cold:
.weak errtable
errtable:
.weak errtablecol
errtablecol:
.weak errtablecolname
errtablecolname:
.weak errtableconstraint
errtableconstraint:
.weak escape_json
escape_json:
.weak escape_single_quotes_ascii
escape_single_quotes_ascii:
.weak estimate_array_length
estimate_array_length:
.weak estimate_expression_value
estimate_expression_value:
.weak estimate_hash_bucket_stats
estimate_hash_bucket_stats:
.weak estimate_hashagg_tablesize
estimate_hashagg_tablesize:
.weak estimate_num_groups
estimate_num_groups:
.weak estimate_rel_size
estimate_rel_size:
.weak eval_const_expressions
eval_const_expressions:
.weak evaluate_expr
evaluate_expr:
.weak event_trigger_in
event_trigger_in:
.weak event_trigger_out
event_trigger_out:
.weak examine_variable
examine_variable:
.weak execCurrentOf
execCurrentOf:
.weak execTuplesHashPrepare
execTuplesHashPrepare:
.weak execTuplesMatchPrepare
execTuplesMatchPrepare:
.weak exec_replication_command
exec_replication_command:
.weak exec_rt_fetch
exec_rt_fetch:
.weak execute_attr_map_cols
execute_attr_map_cols:
.weak execute_attr_map_slot
execute_attr_map_slot:
.weak execute_attr_map_tuple
execute_attr_map_tuple:
.weak executor_errposition
executor_errposition:
.weak expandNSItemAttrs
expandNSItemAttrs:
.weak expandNSItemVars
expandNSItemVars:
.weak expandRTE
expandRTE:
.weak expand_array
expand_array:
.weak expand_function_arguments
expand_function_arguments:
.weak expand_planner_arrays
expand_planner_arrays:
.weak expanded_record_fetch_field
expanded_record_fetch_field:
.weak expanded_record_fetch_tupdesc
expanded_record_fetch_tupdesc:
.weak expanded_record_get_field
expanded_record_get_field:
.weak expanded_record_get_tupdesc
expanded_record_get_tupdesc:
.weak expanded_record_get_tuple
expanded_record_get_tuple:
.weak expanded_record_lookup_field
expanded_record_lookup_field:
.weak expanded_record_set_field_internal
expanded_record_set_field_internal:
.weak expanded_record_set_fields
expanded_record_set_fields:
.weak expanded_record_set_tuple
expanded_record_set_tuple:
.weak exprCollation
exprCollation:
.weak exprInputCollation
exprInputCollation:
.weak exprIsLengthCoercion
exprIsLengthCoercion:
.weak exprLocation
exprLocation:
.weak exprSetCollation
exprSetCollation:
.weak exprSetInputCollation
exprSetInputCollation:
.weak exprType
exprType:
.weak exprTypmod
exprTypmod:
.weak expression_planner
expression_planner:
.weak expression_planner_with_deps
expression_planner_with_deps:
.weak expression_returns_set
expression_returns_set:
.weak expression_returns_set_rows
expression_returns_set_rows:
.weak expression_tree_mutator_impl
expression_tree_mutator_impl:
.weak expression_tree_walker_impl
expression_tree_walker_impl:
.weak exprs_known_equal
exprs_known_equal:
.weak extension_file_exists
extension_file_exists:
.weak extractRelOptions
extractRelOptions:
.weak extract_actual_clauses
extract_actual_clauses:
.weak extract_actual_join_clauses
extract_actual_join_clauses:
.weak extract_date
extract_date:
.weak extract_grouping_collations
extract_grouping_collations:
.weak extract_grouping_cols
extract_grouping_cols:
.weak extract_grouping_ops
extract_grouping_ops:
.weak extract_interval
extract_interval:
.weak extract_query_dependencies
extract_query_dependencies:
.weak extract_query_dependencies_walker
extract_query_dependencies_walker:
.weak extract_time
extract_time:
.weak extract_timestamp
extract_timestamp:
.weak extract_timestamptz
extract_timestamptz:
.weak extract_timetz
extract_timetz:
.weak extract_variadic_args
extract_variadic_args:
.weak fastgetattr
fastgetattr:
.weak fdw_handler_in
fdw_handler_in:
.weak fdw_handler_out
fdw_handler_out:
.weak fetch_att
fetch_att:
.weak fetch_finfo_record
fetch_finfo_record:
.weak fetch_search_path
fetch_search_path:
.weak fetch_search_path_array
fetch_search_path_array:
.weak fetch_upper_rel
fetch_upper_rel:
.weak filter_by_origin_cb_wrapper
filter_by_origin_cb_wrapper:
.weak filter_prepare_cb_wrapper
filter_prepare_cb_wrapper:
.weak final_cost_hashjoin
final_cost_hashjoin:
.weak final_cost_mergejoin
final_cost_mergejoin:
.weak final_cost_nestloop
final_cost_nestloop:
.weak findJsonbValueFromContainer
findJsonbValueFromContainer:
.weak find_appinfos_by_relids
find_appinfos_by_relids:
.weak find_base_rel
find_base_rel:
.weak find_base_rel_ignore_join
find_base_rel_ignore_join:
.weak find_childrel_parents
find_childrel_parents:
.weak find_coercion_pathway
find_coercion_pathway:
.weak find_composite_type_dependencies
find_composite_type_dependencies:
.weak find_computable_ec_member
find_computable_ec_member:
.weak find_derived_clause_for_ec_member
find_derived_clause_for_ec_member:
.weak find_ec_member_matching_expr
find_ec_member_matching_expr:
.weak find_forced_null_var
find_forced_null_var:
.weak find_forced_null_vars
find_forced_null_vars:
.weak find_funcstat_entry
find_funcstat_entry:
.weak find_join_rel
find_join_rel:
.weak find_lateral_references
find_lateral_references:
.weak find_mergeclauses_for_outer_pathkeys
find_mergeclauses_for_outer_pathkeys:
.weak find_minmax_agg_replacement_param
find_minmax_agg_replacement_param:
.weak find_my_exec
find_my_exec:
.weak find_nonnullable_rels
find_nonnullable_rels:
.weak find_nonnullable_vars
find_nonnullable_vars:
.weak find_option
find_option:
.weak find_other_exec
find_other_exec:
.weak find_param_path_info
find_param_path_info:
.weak find_rendezvous_variable
find_rendezvous_variable:
.weak find_tabstat_entry
find_tabstat_entry:
.weak find_typmod_coercion_function
find_typmod_coercion_function:
.weak find_window_functions
find_window_functions:
.weak findsubquery
findsubquery:
.weak finish_spin_delay
finish_spin_delay:
.weak first_dir_separator
first_dir_separator:
.weak first_path_var_separator
first_path_var_separator:
.weak fix_opfuncids
fix_opfuncids:
.weak flatCopyTargetEntry
flatCopyTargetEntry:
.weak flatten_join_alias_vars
flatten_join_alias_vars:
.weak float48div
float48div:
.weak float48eq
float48eq:
.weak float48ge
float48ge:
.weak float48gt
float48gt:
.weak float48le
float48le:
.weak float48lt
float48lt:
.weak float48mi
float48mi:
.weak float48mul
float48mul:
.weak float48ne
float48ne:
.weak float48pl
float48pl:
.weak float4_accum
float4_accum:
.weak float4_cmp_internal
float4_cmp_internal:
.weak float4_div
float4_div:
.weak float4_eq
float4_eq:
.weak float4_ge
float4_ge:
.weak float4_gt
float4_gt:
.weak float4_le
float4_le:
.weak float4_lt
float4_lt:
.weak float4_max
float4_max:
.weak float4_mi
float4_mi:
.weak float4_min
float4_min:
.weak float4_mul
float4_mul:
.weak float4_ne
float4_ne:
.weak float4_numeric
float4_numeric:
.weak float4_pl
float4_pl:
.weak float4_to_char
float4_to_char:
.weak float4abs
float4abs:
.weak float4div
float4div:
.weak float4eq
float4eq:
.weak float4ge
float4ge:
.weak float4gt
float4gt:
.weak float4in
float4in:
.weak float4in_internal
float4in_internal:
.weak float4larger
float4larger:
.weak float4le
float4le:
.weak float4lt
float4lt:
.weak float4mi
float4mi:
.weak float4mul
float4mul:
.weak float4ne
float4ne:
.weak float4out
float4out:
.weak float4pl
float4pl:
.weak float4recv
float4recv:
.weak float4send
float4send:
.weak float4smaller
float4smaller:
.weak float4um
float4um:
.weak float4up
float4up:
.weak float84div
float84div:
.weak float84eq
float84eq:
.weak float84ge
float84ge:
.weak float84gt
float84gt:
.weak float84le
float84le:
.weak float84lt
float84lt:
.weak float84mi
float84mi:
.weak float84mul
float84mul:
.weak float84ne
float84ne:
.weak float84pl
float84pl:
.weak float8_accum
float8_accum:
.weak float8_avg
float8_avg:
.weak float8_cmp_internal
float8_cmp_internal:
.weak float8_combine
float8_combine:
.weak float8_corr
float8_corr:
.weak float8_covar_pop
float8_covar_pop:
.weak float8_covar_samp
float8_covar_samp:
.weak float8_div
float8_div:
.weak float8_eq
float8_eq:
.weak float8_ge
float8_ge:
.weak float8_gt
float8_gt:
.weak float8_le
float8_le:
.weak float8_lt
float8_lt:
.weak float8_max
float8_max:
.weak float8_mi
float8_mi:
.weak float8_min
float8_min:
.weak float8_mul
float8_mul:
.weak float8_ne
float8_ne:
.weak float8_numeric
float8_numeric:
.weak float8_pl
float8_pl:
.weak float8_regr_accum
float8_regr_accum:
.weak float8_regr_avgx
float8_regr_avgx:
.weak float8_regr_avgy
float8_regr_avgy:
.weak float8_regr_combine
float8_regr_combine:
.weak float8_regr_intercept
float8_regr_intercept:
.weak float8_regr_r2
float8_regr_r2:
.weak float8_regr_slope
float8_regr_slope:
.weak float8_regr_sxx
float8_regr_sxx:
.weak float8_regr_sxy
float8_regr_sxy:
.weak float8_regr_syy
float8_regr_syy:
.weak float8_stddev_pop
float8_stddev_pop:
.weak float8_stddev_samp
float8_stddev_samp:
.weak float8_timestamptz
float8_timestamptz:
.weak float8_to_char
float8_to_char:
.weak float8_var_pop
float8_var_pop:
.weak float8_var_samp
float8_var_samp:
.weak float8abs
float8abs:
.weak float8div
float8div:
.weak float8eq
float8eq:
.weak float8ge
float8ge:
.weak float8gt
float8gt:
.weak float8in
float8in:
.weak float8in_internal
float8in_internal:
.weak float8larger
float8larger:
.weak float8le
float8le:
.weak float8lt
float8lt:
.weak float8mi
float8mi:
.weak float8mul
float8mul:
.weak float8ne
float8ne:
.weak float8out
float8out:
.weak float8out_internal
float8out_internal:
.weak float8pl
float8pl:
.weak float8recv
float8recv:
.weak float8send
float8send:
.weak float8smaller
float8smaller:
.weak float8um
float8um:
.weak float8up
float8up:
.weak float_overflow_error
float_overflow_error:
.weak float_time_overflows
float_time_overflows:
.weak float_underflow_error
float_underflow_error:
.weak float_zero_divide_error
float_zero_divide_error:
.weak flt4_mul_cash
flt4_mul_cash:
.weak flt8_mul_cash
flt8_mul_cash:
.weak fmgr_c_validator
fmgr_c_validator:
.weak fmgr_info
fmgr_info:
.weak fmgr_info_copy
fmgr_info_copy:
.weak fmgr_info_cxt
fmgr_info_cxt:
.weak fmgr_internal_function
fmgr_internal_function:
.weak fmgr_internal_validator
fmgr_internal_validator:
.weak fmgr_sql_validator
fmgr_sql_validator:
.weak fmgr_symbol
fmgr_symbol:
.weak for_both_cell_setup
for_both_cell_setup:
.weak for_each_cell_setup
for_each_cell_setup:
.weak for_each_from_setup
for_each_from_setup:
.weak forkname_chars
forkname_chars:
.weak forkname_to_number
forkname_to_number:
.weak format_elog_string
format_elog_string:
.weak format_node_dump
format_node_dump:
.weak format_operator
format_operator:
.weak format_operator_extended
format_operator_extended:
.weak format_operator_parts
format_operator_parts:
.weak format_operator_qualified
format_operator_qualified:
.weak format_procedure
format_procedure:
.weak format_procedure_extended
format_procedure_extended:
.weak format_procedure_parts
format_procedure_parts:
.weak format_procedure_qualified
format_procedure_qualified:
.weak format_type
format_type:
.weak format_type_be
format_type_be:
.weak format_type_be_qualified
format_type_be_qualified:
.weak format_type_extended
format_type_extended:
.weak format_type_with_typemod
format_type_with_typemod:
.weak free_attrmap
free_attrmap:
.weak free_attstatsslot
free_attstatsslot:
.weak free_conversion_map
free_conversion_map:
.weak free_object_addresses
free_object_addresses:
.weak free_parsestate
free_parsestate:
.weak fsync_fname
fsync_fname:
.weak fsync_fname_ext
fsync_fname_ext:
.weak ftod
ftod:
.weak ftoi2
ftoi2:
.weak ftoi4
ftoi4:
.weak ftoi8
ftoi8:
.weak func_get_detail
func_get_detail:
.weak func_match_argtypes
func_match_argtypes:
.weak func_parallel
func_parallel:
.weak func_select_candidate
func_select_candidate:
.weak func_signature_string
func_signature_string:
.weak func_strict
func_strict:
.weak func_volatile
func_volatile:
.weak funcname_signature_string
funcname_signature_string:
.weak function_parse_error_transpose
function_parse_error_transpose:
.weak function_selectivity
function_selectivity:
.weak gen_random_uuid
gen_random_uuid:
.weak generateHeadline
generateHeadline:
.weak generate_base_implied_equalities
generate_base_implied_equalities:
.weak generate_collation_name
generate_collation_name:
.weak generate_gather_paths
generate_gather_paths:
.weak generate_implied_equalities_for_column
generate_implied_equalities_for_column:
.weak generate_join_implied_equalities
generate_join_implied_equalities:
.weak generate_join_implied_equalities_for_ecs
generate_join_implied_equalities_for_ecs:
.weak generate_opclass_name
generate_opclass_name:
.weak generate_operator_clause
generate_operator_clause:
.weak generate_partitionwise_join_paths
generate_partitionwise_join_paths:
.weak generate_series_int4
generate_series_int4:
.weak generate_series_int4_support
generate_series_int4_support:
.weak generate_series_int8
generate_series_int8:
.weak generate_series_int8_support
generate_series_int8_support:
.weak generate_series_numeric
generate_series_numeric:
.weak generate_series_step_int4
generate_series_step_int4:
.weak generate_series_step_int8
generate_series_step_int8:
.weak generate_series_step_numeric
generate_series_step_numeric:
.weak generate_series_timestamp
generate_series_timestamp:
.weak generate_series_timestamptz
generate_series_timestamptz:
.weak generate_series_timestamptz_at_zone
generate_series_timestamptz_at_zone:
.weak generate_subscripts
generate_subscripts:
.weak generate_subscripts_nodir
generate_subscripts_nodir:
.weak generate_useful_gather_paths
generate_useful_gather_paths:
.weak generic_desc
generic_desc:
.weak generic_identify
generic_identify:
.weak generic_mask
generic_mask:
.weak generic_redo
generic_redo:
.weak generic_restriction_selectivity
generic_restriction_selectivity:
.weak genericcostestimate
genericcostestimate:
.weak getAutoExtensionsOfObject
getAutoExtensionsOfObject:
.weak getBaseType
getBaseType:
.weak getBaseTypeAndTypmod
getBaseTypeAndTypmod:
.weak getClosestMatch
getClosestMatch:
.weak getExtensionOfObject
getExtensionOfObject:
.weak getExtensionType
getExtensionType:
.weak getIdentitySequence
getIdentitySequence:
.weak getInsertSelectQuery
getInsertSelectQuery:
.weak getIthJsonbValueFromContainer
getIthJsonbValueFromContainer:
.weak getJsonbLength
getJsonbLength:
.weak getJsonbOffset
getJsonbOffset:
.weak getKeyJsonValueFromContainer
getKeyJsonValueFromContainer:
.weak getObjectClass
getObjectClass:
.weak getObjectDescription
getObjectDescription:
.weak getObjectDescriptionOids
getObjectDescriptionOids:
.weak getObjectIdentity
getObjectIdentity:
.weak getObjectIdentityParts
getObjectIdentityParts:
.weak getObjectTypeDescription
getObjectTypeDescription:
.weak getOwnedSequences
getOwnedSequences:
.weak getRTEPermissionInfo
getRTEPermissionInfo:
.weak getSubscriptingRoutines
getSubscriptingRoutines:
.weak getTSCurrentConfig
getTSCurrentConfig:
.weak getTypeBinaryInputInfo
getTypeBinaryInputInfo:
.weak getTypeBinaryOutputInfo
getTypeBinaryOutputInfo:
.weak getTypeIOParam
getTypeIOParam:
.weak getTypeInputInfo
getTypeInputInfo:
.weak getTypeOutputInfo
getTypeOutputInfo:
.weak get_ENR
get_ENR:
.weak get_actual_clauses
get_actual_clauses:
.weak get_am_name
get_am_name:
.weak get_am_oid
get_am_oid:
.weak get_appendrel_parampathinfo
get_appendrel_parampathinfo:
.weak get_array_type
get_array_type:
.weak get_attavgwidth
get_attavgwidth:
.weak get_attgenerated
get_attgenerated:
.weak get_attname
get_attname:
.weak get_attnum
get_attnum:
.weak get_attoptions
get_attoptions:
.weak get_attstatsslot
get_attstatsslot:
.weak get_attstattarget
get_attstattarget:
.weak get_atttype
get_atttype:
.weak get_atttypetypmodcoll
get_atttypetypmodcoll:
.weak get_backend_type_for_log
get_backend_type_for_log:
.weak get_backup_status
get_backup_status:
.weak get_base_element_type
get_base_element_type:
.weak get_baserel_parampathinfo
get_baserel_parampathinfo:
.weak get_bit
get_bit:
.weak get_call_expr_arg_stable
get_call_expr_arg_stable:
.weak get_call_expr_argtype
get_call_expr_argtype:
.weak get_call_result_type
get_call_result_type:
.weak get_cast_oid
get_cast_oid:
.weak get_catalog_object_by_oid
get_catalog_object_by_oid:
.weak get_catalog_object_by_oid_extended
get_catalog_object_by_oid_extended:
.weak get_cheapest_fractional_path
get_cheapest_fractional_path:
.weak get_cheapest_fractional_path_for_pathkeys
get_cheapest_fractional_path_for_pathkeys:
.weak get_cheapest_parallel_safe_total_inner
get_cheapest_parallel_safe_total_inner:
.weak get_cheapest_path_for_pathkeys
get_cheapest_path_for_pathkeys:
.weak get_collation_isdeterministic
get_collation_isdeterministic:
.weak get_collation_name
get_collation_name:
.weak get_collation_oid
get_collation_oid:
.weak get_commutator
get_commutator:
.weak get_compatible_hash_operators
get_compatible_hash_operators:
.weak get_config_unit_name
get_config_unit_name:
.weak get_configdata
get_configdata:
.weak get_constraint_index
get_constraint_index:
.weak get_constraint_name
get_constraint_name:
.weak get_controlfile
get_controlfile:
.weak get_conversion_oid
get_conversion_oid:
.weak get_current_ts_config
get_current_ts_config:
.weak get_database_name
get_database_name:
.weak get_database_oid
get_database_oid:
.weak get_default_oid_from_partdesc
get_default_oid_from_partdesc:
.weak get_dependent_generated_columns
get_dependent_generated_columns:
.weak get_doc_path
get_doc_path:
.weak get_eclass_for_sort_expr
get_eclass_for_sort_expr:
.weak get_element_type
get_element_type:
.weak get_encoding_name_for_icu
get_encoding_name_for_icu:
.weak get_equality_op_for_ordering_op
get_equality_op_for_ordering_op:
.weak get_etc_path
get_etc_path:
.weak get_event_trigger_oid
get_event_trigger_oid:
.weak get_explain_guc_options
get_explain_guc_options:
.weak get_expr_result_tupdesc
get_expr_result_tupdesc:
.weak get_expr_result_type
get_expr_result_type:
.weak get_extension_name
get_extension_name:
.weak get_extension_oid
get_extension_oid:
.weak get_extension_schema
get_extension_schema:
.weak get_float4_infinity
get_float4_infinity:
.weak get_float4_nan
get_float4_nan:
.weak get_float8_infinity
get_float8_infinity:
.weak get_float8_nan
get_float8_nan:
.weak get_fn_expr_arg_stable
get_fn_expr_arg_stable:
.weak get_fn_expr_argtype
get_fn_expr_argtype:
.weak get_fn_expr_rettype
get_fn_expr_rettype:
.weak get_fn_expr_variadic
get_fn_expr_variadic:
.weak get_fn_opclass_options
get_fn_opclass_options:
.weak get_foreign_data_wrapper_oid
get_foreign_data_wrapper_oid:
.weak get_foreign_server_oid
get_foreign_server_oid:
.weak get_formatted_log_time
get_formatted_log_time:
.weak get_formatted_start_time
get_formatted_start_time:
.weak get_func_arg_info
get_func_arg_info:
.weak get_func_input_arg_names
get_func_input_arg_names:
.weak get_func_leakproof
get_func_leakproof:
.weak get_func_name
get_func_name:
.weak get_func_namespace
get_func_namespace:
.weak get_func_nargs
get_func_nargs:
.weak get_func_prokind
get_func_prokind:
.weak get_func_result_name
get_func_result_name:
.weak get_func_result_type
get_func_result_type:
.weak get_func_retset
get_func_retset:
.weak get_func_rettype
get_func_rettype:
.weak get_func_signature
get_func_signature:
.weak get_func_support
get_func_support:
.weak get_func_trftypes
get_func_trftypes:
.weak get_func_variadictype
get_func_variadictype:
.weak get_function_rows
get_function_rows:
.weak get_function_sibling_type
get_function_sibling_type:
.weak get_guc_variables
get_guc_variables:
.weak get_hash_memory_limit
get_hash_memory_limit:
.weak get_hash_partition_greatest_modulus
get_hash_partition_greatest_modulus:
.weak get_hash_value
get_hash_value:
.weak get_home_path
get_home_path:
.weak get_html_path
get_html_path:
.weak get_include_path
get_include_path:
.weak get_includeserver_path
get_includeserver_path:
.weak get_index_am_oid
get_index_am_oid:
.weak get_index_column_opclass
get_index_column_opclass:
.weak get_index_constraint
get_index_constraint:
.weak get_index_isclustered
get_index_isclustered:
.weak get_index_isreplident
get_index_isreplident:
.weak get_index_isvalid
get_index_isvalid:
.weak get_index_ref_constraints
get_index_ref_constraints:
.weak get_join_variables
get_join_variables:
.weak get_joinrel_parampathinfo
get_joinrel_parampathinfo:
.weak get_language_name
get_language_name:
.weak get_language_oid
get_language_oid:
.weak get_leftop
get_leftop:
.weak get_lib_path
get_lib_path:
.weak get_locale_path
get_locale_path:
.weak get_man_path
get_man_path:
.weak get_matching_partitions
get_matching_partitions:
.weak get_mergejoin_opfamilies
get_mergejoin_opfamilies:
.weak get_multirange_range
get_multirange_range:
.weak get_namespace_name
get_namespace_name:
.weak get_namespace_name_or_temp
get_namespace_name_or_temp:
.weak get_namespace_oid
get_namespace_oid:
.weak get_negator
get_negator:
.weak get_notclausearg
get_notclausearg:
.weak get_object_address
get_object_address:
.weak get_object_address_rv
get_object_address_rv:
.weak get_object_attnum_acl
get_object_attnum_acl:
.weak get_object_attnum_name
get_object_attnum_name:
.weak get_object_attnum_namespace
get_object_attnum_namespace:
.weak get_object_attnum_oid
get_object_attnum_oid:
.weak get_object_attnum_owner
get_object_attnum_owner:
.weak get_object_catcache_name
get_object_catcache_name:
.weak get_object_catcache_oid
get_object_catcache_oid:
.weak get_object_class_descr
get_object_class_descr:
.weak get_object_namensp_unique
get_object_namensp_unique:
.weak get_object_namespace
get_object_namespace:
.weak get_object_oid_index
get_object_oid_index:
.weak get_object_type
get_object_type:
.weak get_op_btree_interpretation
get_op_btree_interpretation:
.weak get_op_hash_functions
get_op_hash_functions:
.weak get_op_hash_functions_ext
get_op_hash_functions_ext:
.weak get_op_opfamily_properties
get_op_opfamily_properties:
.weak get_op_opfamily_sortfamily
get_op_opfamily_sortfamily:
.weak get_op_opfamily_strategy
get_op_opfamily_strategy:
.weak get_op_rettype
get_op_rettype:
.weak get_opclass_family
get_opclass_family:
.weak get_opclass_input_type
get_opclass_input_type:
.weak get_opclass_oid
get_opclass_oid:
.weak get_opclass_opfamily_and_input_type
get_opclass_opfamily_and_input_type:
.weak get_opcode
get_opcode:
.weak get_opfamily_member
get_opfamily_member:
.weak get_opfamily_oid
get_opfamily_oid:
.weak get_opfamily_proc
get_opfamily_proc:
.weak get_opname
get_opname:
.weak get_oprjoin
get_oprjoin:
.weak get_oprrest
get_oprrest:
.weak get_ordering_op_for_equality_op
get_ordering_op_for_equality_op:
.weak get_ordering_op_properties
get_ordering_op_properties:
.weak get_param_path_clause_serials
get_param_path_clause_serials:
.weak get_parameterized_baserel_size
get_parameterized_baserel_size:
.weak get_parameterized_joinrel_size
get_parameterized_joinrel_size:
.weak get_parent_directory
get_parent_directory:
.weak get_parse_rowmark
get_parse_rowmark:
.weak get_password_type
get_password_type:
.weak get_pkginclude_path
get_pkginclude_path:
.weak get_pkglib_path
get_pkglib_path:
.weak get_progname
get_progname:
.weak get_promoted_array_type
get_promoted_array_type:
.weak get_ps_display
get_ps_display:
.weak get_publication_name
get_publication_name:
.weak get_publication_oid
get_publication_oid:
.weak get_qual_from_partbound
get_qual_from_partbound:
.weak get_quals_from_indexclauses
get_quals_from_indexclauses:
.weak get_range_collation
get_range_collation:
.weak get_range_multirange
get_range_multirange:
.weak get_range_partbound_string
get_range_partbound_string:
.weak get_range_subtype
get_range_subtype:
.weak get_rel_data_width
get_rel_data_width:
.weak get_rel_name
get_rel_name:
.weak get_rel_namespace
get_rel_namespace:
.weak get_rel_persistence
get_rel_persistence:
.weak get_rel_relispartition
get_rel_relispartition:
.weak get_rel_relkind
get_rel_relkind:
.weak get_rel_tablespace
get_rel_tablespace:
.weak get_rel_type_id
get_rel_type_id:
.weak get_relation_data_width
get_relation_data_width:
.weak get_relation_info
get_relation_info:
.weak get_relkind_objtype
get_relkind_objtype:
.weak get_relname_relid
get_relname_relid:
.weak get_restriction_variable
get_restriction_variable:
.weak get_rightop
get_rightop:
.weak get_role_oid
get_role_oid:
.weak get_role_oid_or_public
get_role_oid_or_public:
.weak get_role_password
get_role_password:
.weak get_rolespec_name
get_rolespec_name:
.weak get_rolespec_oid
get_rolespec_oid:
.weak get_rolespec_tuple
get_rolespec_tuple:
.weak get_row_security_policies
get_row_security_policies:
.weak get_rte_attribute_is_dropped
get_rte_attribute_is_dropped:
.weak get_rte_attribute_name
get_rte_attribute_name:
.weak get_share_path
get_share_path:
.weak get_sort_group_operators
get_sort_group_operators:
.weak get_sortgroupclause_expr
get_sortgroupclause_expr:
.weak get_sortgroupclause_tle
get_sortgroupclause_tle:
.weak get_sortgrouplist_exprs
get_sortgrouplist_exprs:
.weak get_sortgroupref_clause
get_sortgroupref_clause:
.weak get_sortgroupref_clause_noerr
get_sortgroupref_clause_noerr:
.weak get_sortgroupref_tle
get_sortgroupref_tle:
.weak get_stack_depth_rlimit
get_stack_depth_rlimit:
.weak get_statistics_object_oid
get_statistics_object_oid:
.weak get_stats_option_name
get_stats_option_name:
.weak get_subscription_name
get_subscription_name:
.weak get_subscription_oid
get_subscription_oid:
.weak get_table_am_oid
get_table_am_oid:
.weak get_tablespace_io_concurrency
get_tablespace_io_concurrency:
.weak get_tablespace_maintenance_io_concurrency
get_tablespace_maintenance_io_concurrency:
.weak get_tablespace_name
get_tablespace_name:
.weak get_tablespace_oid
get_tablespace_oid:
.weak get_tablespace_page_costs
get_tablespace_page_costs:
.weak get_tle_by_resno
get_tle_by_resno:
.weak get_tlist_exprs
get_tlist_exprs:
.weak get_transform_fromsql
get_transform_fromsql:
.weak get_transform_oid
get_transform_oid:
.weak get_transform_tosql
get_transform_tosql:
.weak get_translated_update_targetlist
get_translated_update_targetlist:
.weak get_trigger_oid
get_trigger_oid:
.weak get_ts_config_oid
get_ts_config_oid:
.weak get_ts_dict_oid
get_ts_dict_oid:
.weak get_ts_parser_oid
get_ts_parser_oid:
.weak get_ts_template_oid
get_ts_template_oid:
.weak get_tsearch_config_filename
get_tsearch_config_filename:
.weak get_typ_typrelid
get_typ_typrelid:
.weak get_typavgwidth
get_typavgwidth:
.weak get_typbyval
get_typbyval:
.weak get_typcollation
get_typcollation:
.weak get_typdefault
get_typdefault:
.weak get_type_category_preferred
get_type_category_preferred:
.weak get_type_io_data
get_type_io_data:
.weak get_typisdefined
get_typisdefined:
.weak get_typlen
get_typlen:
.weak get_typlenbyval
get_typlenbyval:
.weak get_typlenbyvalalign
get_typlenbyvalalign:
.weak get_typmodin
get_typmodin:
.weak get_typstorage
get_typstorage:
.weak get_typsubscript
get_typsubscript:
.weak get_typtype
get_typtype:
.weak get_user_default_acl
get_user_default_acl:
.weak get_variable_numdistinct
get_variable_numdistinct:
.weak get_view_query
get_view_query:
.weak get_visible_ENR_metadata
get_visible_ENR_metadata:
.weak getdatabaseencoding
getdatabaseencoding:
.weak geterrcode
geterrcode:
.weak geterrlevel
geterrlevel:
.weak geterrposition
geterrposition:
.weak getinternalerrposition
getinternalerrposition:
.weak getmissingattr
getmissingattr:
.weak getpeereid
getpeereid:
.weak gettoken_tsvector
gettoken_tsvector:
.weak ginGetStats
ginGetStats:
.weak ginUpdateStats
ginUpdateStats:
.weak gin_clean_pending_list
gin_clean_pending_list:
.weak gin_cmp_prefix
gin_cmp_prefix:
.weak gin_cmp_tslexeme
gin_cmp_tslexeme:
.weak gin_compare_jsonb
gin_compare_jsonb:
.weak gin_consistent_jsonb
gin_consistent_jsonb:
.weak gin_consistent_jsonb_path
gin_consistent_jsonb_path:
.weak gin_extract_jsonb
gin_extract_jsonb:
.weak gin_extract_jsonb_path
gin_extract_jsonb_path:
.weak gin_extract_jsonb_query
gin_extract_jsonb_query:
.weak gin_extract_jsonb_query_path
gin_extract_jsonb_query_path:
.weak gin_extract_tsquery
gin_extract_tsquery:
.weak gin_extract_tsquery_5args
gin_extract_tsquery_5args:
.weak gin_extract_tsquery_oldsig
gin_extract_tsquery_oldsig:
.weak gin_extract_tsvector
gin_extract_tsvector:
.weak gin_extract_tsvector_2args
gin_extract_tsvector_2args:
.weak gin_triconsistent_jsonb
gin_triconsistent_jsonb:
.weak gin_triconsistent_jsonb_path
gin_triconsistent_jsonb_path:
.weak gin_tsquery_consistent
gin_tsquery_consistent:
.weak gin_tsquery_consistent_6args
gin_tsquery_consistent_6args:
.weak gin_tsquery_consistent_oldsig
gin_tsquery_consistent_oldsig:
.weak gin_tsquery_triconsistent
gin_tsquery_triconsistent:
.weak ginarrayconsistent
ginarrayconsistent:
.weak ginarrayextract
ginarrayextract:
.weak ginarrayextract_2args
ginarrayextract_2args:
.weak ginarraytriconsistent
ginarraytriconsistent:
.weak ginhandler
ginhandler:
.weak ginqueryarrayextract
ginqueryarrayextract:
.weak gist_box_consistent
gist_box_consistent:
.weak gist_box_distance
gist_box_distance:
.weak gist_box_penalty
gist_box_penalty:
.weak gist_box_picksplit
gist_box_picksplit:
.weak gist_box_same
gist_box_same:
.weak gist_box_union
gist_box_union:
.weak gist_circle_compress
gist_circle_compress:
.weak gist_circle_consistent
gist_circle_consistent:
.weak gist_circle_distance
gist_circle_distance:
.weak gist_point_compress
gist_point_compress:
.weak gist_point_consistent
gist_point_consistent:
.weak gist_point_distance
gist_point_distance:
.weak gist_point_fetch
gist_point_fetch:
.weak gist_point_sortsupport
gist_point_sortsupport:
.weak gist_poly_compress
gist_poly_compress:
.weak gist_poly_consistent
gist_poly_consistent:
.weak gist_poly_distance
gist_poly_distance:
.weak gisthandler
gisthandler:
.weak grouping_is_hashable
grouping_is_hashable:
.weak grouping_is_sortable
grouping_is_sortable:
.weak gtsquery_compress
gtsquery_compress:
.weak gtsquery_consistent
gtsquery_consistent:
.weak gtsquery_consistent_oldsig
gtsquery_consistent_oldsig:
.weak gtsquery_penalty
gtsquery_penalty:
.weak gtsquery_picksplit
gtsquery_picksplit:
.weak gtsquery_same
gtsquery_same:
.weak gtsquery_union
gtsquery_union:
.weak gtsvector_compress
gtsvector_compress:
.weak gtsvector_consistent
gtsvector_consistent:
.weak gtsvector_consistent_oldsig
gtsvector_consistent_oldsig:
.weak gtsvector_decompress
gtsvector_decompress:
.weak gtsvector_options
gtsvector_options:
.weak gtsvector_penalty
gtsvector_penalty:
.weak gtsvector_picksplit
gtsvector_picksplit:
.weak gtsvector_same
gtsvector_same:
.weak gtsvector_union
gtsvector_union:
.weak gtsvectorin
gtsvectorin:
.weak gtsvectorout
gtsvectorout:
.weak guc_free
guc_free:
.weak guc_malloc
guc_malloc:
.weak guc_realloc
guc_realloc:
.weak guc_strdup
guc_strdup:
.weak has_any_column_privilege_id
has_any_column_privilege_id:
.weak has_any_column_privilege_id_id
has_any_column_privilege_id_id:
.weak has_any_column_privilege_id_name
has_any_column_privilege_id_name:
.weak has_any_column_privilege_name
has_any_column_privilege_name:
.weak has_any_column_privilege_name_id
has_any_column_privilege_name_id:
.weak has_any_column_privilege_name_name
has_any_column_privilege_name_name:
.weak has_bypassrls_privilege
has_bypassrls_privilege:
.weak has_column_privilege_id_attnum
has_column_privilege_id_attnum:
.weak has_column_privilege_id_id_attnum
has_column_privilege_id_id_attnum:
.weak has_column_privilege_id_id_name
has_column_privilege_id_id_name:
.weak has_column_privilege_id_name
has_column_privilege_id_name:
.weak has_column_privilege_id_name_attnum
has_column_privilege_id_name_attnum:
.weak has_column_privilege_id_name_name
has_column_privilege_id_name_name:
.weak has_column_privilege_name_attnum
has_column_privilege_name_attnum:
.weak has_column_privilege_name_id_attnum
has_column_privilege_name_id_attnum:
.weak has_column_privilege_name_id_name
has_column_privilege_name_id_name:
.weak has_column_privilege_name_name
has_column_privilege_name_name:
.weak has_column_privilege_name_name_attnum
has_column_privilege_name_name_attnum:
.weak has_column_privilege_name_name_name
has_column_privilege_name_name_name:
.weak has_createrole_privilege
has_createrole_privilege:
.weak has_database_privilege_id
has_database_privilege_id:
.weak has_database_privilege_id_id
has_database_privilege_id_id:
.weak has_database_privilege_id_name
has_database_privilege_id_name:
.weak has_database_privilege_name
has_database_privilege_name:
.weak has_database_privilege_name_id
has_database_privilege_name_id:
.weak has_database_privilege_name_name
has_database_privilege_name_name:
.weak has_drive_prefix
has_drive_prefix:
.weak has_fn_opclass_options
has_fn_opclass_options:
.weak has_foreign_data_wrapper_privilege_id
has_foreign_data_wrapper_privilege_id:
.weak has_foreign_data_wrapper_privilege_id_id
has_foreign_data_wrapper_privilege_id_id:
.weak has_foreign_data_wrapper_privilege_id_name
has_foreign_data_wrapper_privilege_id_name:
.weak has_foreign_data_wrapper_privilege_name
has_foreign_data_wrapper_privilege_name:
.weak has_foreign_data_wrapper_privilege_name_id
has_foreign_data_wrapper_privilege_name_id:
.weak has_foreign_data_wrapper_privilege_name_name
has_foreign_data_wrapper_privilege_name_name:
.weak has_function_privilege_id
has_function_privilege_id:
.weak has_function_privilege_id_id
has_function_privilege_id_id:
.weak has_function_privilege_id_name
has_function_privilege_id_name:
.weak has_function_privilege_name
has_function_privilege_name:
.weak has_function_privilege_name_id
has_function_privilege_name_id:
.weak has_function_privilege_name_name
has_function_privilege_name_name:
.weak has_language_privilege_id
has_language_privilege_id:
.weak has_language_privilege_id_id
has_language_privilege_id_id:
.weak has_language_privilege_id_name
has_language_privilege_id_name:
.weak has_language_privilege_name
has_language_privilege_name:
.weak has_language_privilege_name_id
has_language_privilege_name_id:
.weak has_language_privilege_name_name
has_language_privilege_name_name:
.weak has_parameter_privilege_id_name
has_parameter_privilege_id_name:
.weak has_parameter_privilege_name
has_parameter_privilege_name:
.weak has_parameter_privilege_name_name
has_parameter_privilege_name_name:
.weak has_privs_of_role
has_privs_of_role:
.weak has_pseudoconstant_clauses
has_pseudoconstant_clauses:
.weak has_relevant_eclass_joinclause
has_relevant_eclass_joinclause:
.weak has_rolreplication
has_rolreplication:
.weak has_row_triggers
has_row_triggers:
.weak has_schema_privilege_id
has_schema_privilege_id:
.weak has_schema_privilege_id_id
has_schema_privilege_id_id:
.weak has_schema_privilege_id_name
has_schema_privilege_id_name:
.weak has_schema_privilege_name
has_schema_privilege_name:
.weak has_schema_privilege_name_id
has_schema_privilege_name_id:
.weak has_schema_privilege_name_name
has_schema_privilege_name_name:
.weak has_sequence_privilege_id
has_sequence_privilege_id:
.weak has_sequence_privilege_id_id
has_sequence_privilege_id_id:
.weak has_sequence_privilege_id_name
has_sequence_privilege_id_name:
.weak has_sequence_privilege_name
has_sequence_privilege_name:
.weak has_sequence_privilege_name_id
has_sequence_privilege_name_id:
.weak has_sequence_privilege_name_name
has_sequence_privilege_name_name:
.weak has_server_privilege_id
has_server_privilege_id:
.weak has_server_privilege_id_id
has_server_privilege_id_id:
.weak has_server_privilege_id_name
has_server_privilege_id_name:
.weak has_server_privilege_name
has_server_privilege_name:
.weak has_server_privilege_name_id
has_server_privilege_name_id:
.weak has_server_privilege_name_name
has_server_privilege_name_name:
.weak has_stats_of_kind
has_stats_of_kind:
.weak has_stored_generated_columns
has_stored_generated_columns:
.weak has_table_privilege_id
has_table_privilege_id:
.weak has_table_privilege_id_id
has_table_privilege_id_id:
.weak has_table_privilege_id_name
has_table_privilege_id_name:
.weak has_table_privilege_name
has_table_privilege_name:
.weak has_table_privilege_name_id
has_table_privilege_name_id:
.weak has_table_privilege_name_name
has_table_privilege_name_name:
.weak has_tablespace_privilege_id
has_tablespace_privilege_id:
.weak has_tablespace_privilege_id_id
has_tablespace_privilege_id_id:
.weak has_tablespace_privilege_id_name
has_tablespace_privilege_id_name:
.weak has_tablespace_privilege_name
has_tablespace_privilege_name:
.weak has_tablespace_privilege_name_id
has_tablespace_privilege_name_id:
.weak has_tablespace_privilege_name_name
has_tablespace_privilege_name_name:
.weak has_transition_tables
has_transition_tables:
.weak has_type_privilege_id
has_type_privilege_id:
.weak has_type_privilege_id_id
has_type_privilege_id_id:
.weak has_type_privilege_id_name
has_type_privilege_id_name:
.weak has_type_privilege_name
has_type_privilege_name:
.weak has_type_privilege_name_id
has_type_privilege_name_id:
.weak has_type_privilege_name_name
has_type_privilege_name_name:
.weak has_unique_index
has_unique_index:
.weak has_useful_pathkeys
has_useful_pathkeys:
.weak hashTupleDesc
hashTupleDesc:
.weak hash_aclitem
hash_aclitem:
.weak hash_aclitem_extended
hash_aclitem_extended:
.weak hash_agg_entry_size
hash_agg_entry_size:
.weak hash_agg_set_limits
hash_agg_set_limits:
.weak hash_array
hash_array:
.weak hash_array_extended
hash_array_extended:
.weak hash_create
hash_create:
.weak hash_destroy
hash_destroy:
.weak hash_estimate_size
hash_estimate_size:
.weak hash_freeze
hash_freeze:
.weak hash_get_num_entries
hash_get_num_entries:
.weak hash_get_shared_size
hash_get_shared_size:
.weak hash_multirange
hash_multirange:
.weak hash_multirange_extended
hash_multirange_extended:
.weak hash_numeric
hash_numeric:
.weak hash_numeric_extended
hash_numeric_extended:
.weak hash_range
hash_range:
.weak hash_range_extended
hash_range_extended:
.weak hash_record
hash_record:
.weak hash_record_extended
hash_record_extended:
.weak hash_search
hash_search:
.weak hash_search_with_hash_value
hash_search_with_hash_value:
.weak hash_select_dirsize
hash_select_dirsize:
.weak hash_seq_init
hash_seq_init:
.weak hash_seq_search
hash_seq_search:
.weak hash_seq_term
hash_seq_term:
.weak hash_stats
hash_stats:
.weak hash_update_hash_key
hash_update_hash_key:
.weak hashbpchar
hashbpchar:
.weak hashbpcharextended
hashbpcharextended:
.weak hashchar
hashchar:
.weak hashcharextended
hashcharextended:
.weak hashenum
hashenum:
.weak hashenumextended
hashenumextended:
.weak hashfloat4
hashfloat4:
.weak hashfloat4extended
hashfloat4extended:
.weak hashfloat8
hashfloat8:
.weak hashfloat8extended
hashfloat8extended:
.weak hashhandler
hashhandler:
.weak hashinet
hashinet:
.weak hashinetextended
hashinetextended:
.weak hashint2
hashint2:
.weak hashint2extended
hashint2extended:
.weak hashint4
hashint4:
.weak hashint4extended
hashint4extended:
.weak hashint8
hashint8:
.weak hashint8extended
hashint8extended:
.weak hashmacaddr
hashmacaddr:
.weak hashmacaddr8
hashmacaddr8:
.weak hashmacaddr8extended
hashmacaddr8extended:
.weak hashmacaddrextended
hashmacaddrextended:
.weak hashname
hashname:
.weak hashnameextended
hashnameextended:
.weak hashoid
hashoid:
.weak hashoidextended
hashoidextended:
.weak hashoidvector
hashoidvector:
.weak hashoidvectorextended
hashoidvectorextended:
.weak hashtext
hashtext:
.weak hashtextextended
hashtextextended:
.weak hashtid
hashtid:
.weak hashtidextended
hashtidextended:
.weak hashvarlena
hashvarlena:
.weak hashvarlenaextended
hashvarlenaextended:
.weak haspos
haspos:
.weak have_createdb_privilege
have_createdb_privilege:
.weak have_dangerous_phv
have_dangerous_phv:
.weak have_free_buffer
have_free_buffer:
.weak have_join_order_restriction
have_join_order_restriction:
.weak have_relevant_eclass_joinclause
have_relevant_eclass_joinclause:
.weak heap_abort_speculative
heap_abort_speculative:
.weak heap_attisnull
heap_attisnull:
.weak heap_beginscan
heap_beginscan:
.weak heap_compute_data_size
heap_compute_data_size:
.weak heap_copy_minimal_tuple
heap_copy_minimal_tuple:
.weak heap_copy_tuple_as_datum
heap_copy_tuple_as_datum:
.weak heap_copytuple
heap_copytuple:
.weak heap_copytuple_with_tuple
heap_copytuple_with_tuple:
.weak heap_create
heap_create:
.weak heap_create_with_catalog
heap_create_with_catalog:
.weak heap_deform_tuple
heap_deform_tuple:
.weak heap_delete
heap_delete:
.weak heap_drop_with_catalog
heap_drop_with_catalog:
.weak heap_endscan
heap_endscan:
.weak heap_expand_tuple
heap_expand_tuple:
.weak heap_fetch
heap_fetch:
.weak heap_fill_tuple
heap_fill_tuple:
.weak heap_finish_speculative
heap_finish_speculative:
.weak heap_form_minimal_tuple
heap_form_minimal_tuple:
.weak heap_form_tuple
heap_form_tuple:
.weak heap_free_minimal_tuple
heap_free_minimal_tuple:
.weak heap_freetuple
heap_freetuple:
.weak heap_freeze_execute_prepared
heap_freeze_execute_prepared:
.weak heap_freeze_tuple
heap_freeze_tuple:
.weak heap_get_latest_tid
heap_get_latest_tid:
.weak heap_get_root_tuples
heap_get_root_tuples:
.weak heap_getnext
heap_getnext:
.weak heap_getnextslot
heap_getnextslot:
.weak heap_getnextslot_tidrange
heap_getnextslot_tidrange:
.weak heap_getsysattr
heap_getsysattr:
.weak heap_hot_search_buffer
heap_hot_search_buffer:
.weak heap_index_delete_tuples
heap_index_delete_tuples:
.weak heap_inplace_lock
heap_inplace_lock:
.weak heap_inplace_unlock
heap_inplace_unlock:
.weak heap_inplace_update
heap_inplace_update:
.weak heap_inplace_update_and_unlock
heap_inplace_update_and_unlock:
.weak heap_insert
heap_insert:
.weak heap_lock_tuple
heap_lock_tuple:
.weak heap_modify_tuple
heap_modify_tuple:
.weak heap_modify_tuple_by_cols
heap_modify_tuple_by_cols:
.weak heap_multi_insert
heap_multi_insert:
.weak heap_page_prune
heap_page_prune:
.weak heap_page_prune_execute
heap_page_prune_execute:
.weak heap_page_prune_opt
heap_page_prune_opt:
.weak heap_prepare_freeze_tuple
heap_prepare_freeze_tuple:
.weak heap_reloptions
heap_reloptions:
.weak heap_rescan
heap_rescan:
.weak heap_set_tidrange
heap_set_tidrange:
.weak heap_setscanlimits
heap_setscanlimits:
.weak heap_tableam_handler
heap_tableam_handler:
.weak heap_truncate
heap_truncate:
.weak heap_truncate_check_FKs
heap_truncate_check_FKs:
.weak heap_truncate_find_FKs
heap_truncate_find_FKs:
.weak heap_truncate_one_rel
heap_truncate_one_rel:
.weak heap_tuple_from_minimal_tuple
heap_tuple_from_minimal_tuple:
.weak heap_tuple_needs_eventual_freeze
heap_tuple_needs_eventual_freeze:
.weak heap_tuple_should_freeze
heap_tuple_should_freeze:
.weak heap_update
heap_update:
.weak heap_vacuum_rel
heap_vacuum_rel:
.weak heapgetpage
heapgetpage:
.weak hex_decode
hex_decode:
.weak hex_decode_safe
hex_decode_safe:
.weak hex_encode
hex_encode:
.weak histogram_selectivity
histogram_selectivity:
.weak hlparsetext
hlparsetext:
.weak hypothetical_cume_dist_final
hypothetical_cume_dist_final:
.weak hypothetical_dense_rank_final
hypothetical_dense_rank_final:
.weak hypothetical_percent_rank_final
hypothetical_percent_rank_final:
.weak hypothetical_rank_final
hypothetical_rank_final:
.weak i2tod
i2tod:
.weak i2tof
i2tof:
.weak i2toi4
i2toi4:
.weak i4tochar
i4tochar:
.weak i4tod
i4tod:
.weak i4tof
i4tof:
.weak i4toi2
i4toi2:
.weak i8tod
i8tod:
.weak i8tof
i8tof:
.weak i8tooid
i8tooid:
.weak iclikejoinsel
iclikejoinsel:
.weak iclikesel
iclikesel:
.weak icnlikejoinsel
icnlikejoinsel:
.weak icnlikesel
icnlikesel:
.weak icregexeqjoinsel
icregexeqjoinsel:
.weak icregexeqsel
icregexeqsel:
.weak icregexnejoinsel
icregexnejoinsel:
.weak icregexnesel
icregexnesel:
.weak in_error_recursion_trouble
in_error_recursion_trouble:
.weak in_range_date_interval
in_range_date_interval:
.weak in_range_float4_float8
in_range_float4_float8:
.weak in_range_float8_float8
in_range_float8_float8:
.weak in_range_int2_int2
in_range_int2_int2:
.weak in_range_int2_int4
in_range_int2_int4:
.weak in_range_int2_int8
in_range_int2_int8:
.weak in_range_int4_int2
in_range_int4_int2:
.weak in_range_int4_int4
in_range_int4_int4:
.weak in_range_int4_int8
in_range_int4_int8:
.weak in_range_int8_int8
in_range_int8_int8:
.weak in_range_interval_interval
in_range_interval_interval:
.weak in_range_numeric_numeric
in_range_numeric_numeric:
.weak in_range_time_interval
in_range_time_interval:
.weak in_range_timestamp_interval
in_range_timestamp_interval:
.weak in_range_timestamptz_interval
in_range_timestamptz_interval:
.weak in_range_timetz_interval
in_range_timetz_interval:
.weak index_am_handler_in
index_am_handler_in:
.weak index_am_handler_out
index_am_handler_out:
.weak index_beginscan
index_beginscan:
.weak index_beginscan_bitmap
index_beginscan_bitmap:
.weak index_beginscan_parallel
index_beginscan_parallel:
.weak index_build
index_build:
.weak index_bulk_delete
index_bulk_delete:
.weak index_can_return
index_can_return:
.weak index_check_primary_key
index_check_primary_key:
.weak index_close
index_close:
.weak index_compute_xid_horizon_for_tuples
index_compute_xid_horizon_for_tuples:
.weak index_concurrently_build
index_concurrently_build:
.weak index_concurrently_create_copy
index_concurrently_create_copy:
.weak index_concurrently_set_dead
index_concurrently_set_dead:
.weak index_concurrently_swap
index_concurrently_swap:
.weak index_constraint_create
index_constraint_create:
.weak index_create
index_create:
.weak index_deform_tuple
index_deform_tuple:
.weak index_deform_tuple_internal
index_deform_tuple_internal:
.weak index_drop
index_drop:
.weak index_endscan
index_endscan:
.weak index_fetch_heap
index_fetch_heap:
.weak index_form_tuple
index_form_tuple:
.weak index_form_tuple_context
index_form_tuple_context:
.weak index_getattr
index_getattr:
.weak index_getbitmap
index_getbitmap:
.weak index_getnext_slot
index_getnext_slot:
.weak index_getnext_tid
index_getnext_tid:
.weak index_getprocid
index_getprocid:
.weak index_getprocinfo
index_getprocinfo:
.weak index_insert
index_insert:
.weak index_markpos
index_markpos:
.weak index_opclass_options
index_opclass_options:
.weak index_open
index_open:
.weak index_other_operands_eval_cost
index_other_operands_eval_cost:
.weak index_pages_fetched
index_pages_fetched:
.weak index_parallelrescan
index_parallelrescan:
.weak index_parallelscan_estimate
index_parallelscan_estimate:
.weak index_parallelscan_initialize
index_parallelscan_initialize:
.weak index_reloptions
index_reloptions:
.weak index_rescan
index_rescan:
.weak index_restrpos
index_restrpos:
.weak index_set_state_flags
index_set_state_flags:
.weak index_store_float8_orderby_distances
index_store_float8_orderby_distances:
.weak index_truncate_tuple
index_truncate_tuple:
.weak index_vacuum_cleanup
index_vacuum_cleanup:
.weak indexcol_is_bool_constant_for_query
indexcol_is_bool_constant_for_query:
.weak ineq_histogram_selectivity
ineq_histogram_selectivity:
.weak inet_abbrev
inet_abbrev:
.weak inet_client_addr
inet_client_addr:
.weak inet_client_port
inet_client_port:
.weak inet_gist_compress
inet_gist_compress:
.weak inet_gist_consistent
inet_gist_consistent:
.weak inet_gist_fetch
inet_gist_fetch:
.weak inet_gist_penalty
inet_gist_penalty:
.weak inet_gist_picksplit
inet_gist_picksplit:
.weak inet_gist_same
inet_gist_same:
.weak inet_gist_union
inet_gist_union:
.weak inet_in
inet_in:
.weak inet_merge
inet_merge:
.weak inet_out
inet_out:
.weak inet_recv
inet_recv:
.weak inet_same_family
inet_same_family:
.weak inet_send
inet_send:
.weak inet_server_addr
inet_server_addr:
.weak inet_server_port
inet_server_port:
.weak inet_set_masklen
inet_set_masklen:
.weak inet_spg_choose
inet_spg_choose:
.weak inet_spg_config
inet_spg_config:
.weak inet_spg_inner_consistent
inet_spg_inner_consistent:
.weak inet_spg_leaf_consistent
inet_spg_leaf_consistent:
.weak inet_spg_picksplit
inet_spg_picksplit:
.weak inet_to_cidr
inet_to_cidr:
.weak inetand
inetand:
.weak inetmi
inetmi:
.weak inetmi_int8
inetmi_int8:
.weak inetnot
inetnot:
.weak inetor
inetor:
.weak inetpl
inetpl:
.weak infer_arbiter_indexes
infer_arbiter_indexes:
.weak initArrayResult
initArrayResult:
.weak initArrayResultAny
initArrayResultAny:
.weak initArrayResultArr
initArrayResultArr:
.weak initArrayResultWithSize
initArrayResultWithSize:
.weak initClosestMatch
initClosestMatch:
.weak initStringInfo
initStringInfo:
.weak init_MultiFuncCall
init_MultiFuncCall:
.weak init_local_reloptions
init_local_reloptions:
.weak init_ps_display
init_ps_display:
.weak init_spin_delay
init_spin_delay:
.weak init_tsvector_parser
init_tsvector_parser:
.weak initcap
initcap:
.weak initial_cost_hashjoin
initial_cost_hashjoin:
.weak initial_cost_mergejoin
initial_cost_mergejoin:
.weak initial_cost_nestloop
initial_cost_nestloop:
.weak initialize_acl
initialize_acl:
.weak initialize_mergeclause_eclasses
initialize_mergeclause_eclasses:
.weak inline_set_returning_function
inline_set_returning_function:
.weak innerrel_is_unique
innerrel_is_unique:
.weak int24div
int24div:
.weak int24eq
int24eq:
.weak int24ge
int24ge:
.weak int24gt
int24gt:
.weak int24le
int24le:
.weak int24lt
int24lt:
.weak int24mi
int24mi:
.weak int24mul
int24mul:
.weak int24ne
int24ne:
.weak int24pl
int24pl:
.weak int28
int28:
.weak int28div
int28div:
.weak int28eq
int28eq:
.weak int28ge
int28ge:
.weak int28gt
int28gt:
.weak int28le
int28le:
.weak int28lt
int28lt:
.weak int28mi
int28mi:
.weak int28mul
int28mul:
.weak int28ne
int28ne:
.weak int28pl
int28pl:
.weak int2_accum
int2_accum:
.weak int2_accum_inv
int2_accum_inv:
.weak int2_avg_accum
int2_avg_accum:
.weak int2_avg_accum_inv
int2_avg_accum_inv:
.weak int2_mul_cash
int2_mul_cash:
.weak int2_numeric
int2_numeric:
.weak int2_sum
int2_sum:
.weak int2abs
int2abs:
.weak int2and
int2and:
.weak int2div
int2div:
.weak int2eq
int2eq:
.weak int2ge
int2ge:
.weak int2gt
int2gt:
.weak int2in
int2in:
.weak int2int4_sum
int2int4_sum:
.weak int2larger
int2larger:
.weak int2le
int2le:
.weak int2lt
int2lt:
.weak int2mi
int2mi:
.weak int2mod
int2mod:
.weak int2mul
int2mul:
.weak int2ne
int2ne:
.weak int2not
int2not:
.weak int2or
int2or:
.weak int2out
int2out:
.weak int2pl
int2pl:
.weak int2recv
int2recv:
.weak int2send
int2send:
.weak int2shl
int2shl:
.weak int2shr
int2shr:
.weak int2smaller
int2smaller:
.weak int2um
int2um:
.weak int2up
int2up:
.weak int2vectorin
int2vectorin:
.weak int2vectorout
int2vectorout:
.weak int2vectorrecv
int2vectorrecv:
.weak int2vectorsend
int2vectorsend:
.weak int2xor
int2xor:
.weak int42div
int42div:
.weak int42eq
int42eq:
.weak int42ge
int42ge:
.weak int42gt
int42gt:
.weak int42le
int42le:
.weak int42lt
int42lt:
.weak int42mi
int42mi:
.weak int42mul
int42mul:
.weak int42ne
int42ne:
.weak int42pl
int42pl:
.weak int48
int48:
.weak int48div
int48div:
.weak int48eq
int48eq:
.weak int48ge
int48ge:
.weak int48gt
int48gt:
.weak int48le
int48le:
.weak int48lt
int48lt:
.weak int48mi
int48mi:
.weak int48mul
int48mul:
.weak int48ne
int48ne:
.weak int48pl
int48pl:
.weak int4_accum
int4_accum:
.weak int4_accum_inv
int4_accum_inv:
.weak int4_avg_accum
int4_avg_accum:
.weak int4_avg_accum_inv
int4_avg_accum_inv:
.weak int4_avg_combine
int4_avg_combine:
.weak int4_bool
int4_bool:
.weak int4_cash
int4_cash:
.weak int4_mul_cash
int4_mul_cash:
.weak int4_numeric
int4_numeric:
.weak int4_sum
int4_sum:
.weak int4_to_char
int4_to_char:
.weak int4abs
int4abs:
.weak int4and
int4and:
.weak int4div
int4div:
.weak int4eq
int4eq:
.weak int4gcd
int4gcd:
.weak int4ge
int4ge:
.weak int4gt
int4gt:
.weak int4in
int4in:
.weak int4inc
int4inc:
.weak int4larger
int4larger:
.weak int4lcm
int4lcm:
.weak int4le
int4le:
.weak int4lt
int4lt:
.weak int4mi
int4mi:
.weak int4mod
int4mod:
.weak int4mul
int4mul:
.weak int4ne
int4ne:
.weak int4not
int4not:
.weak int4or
int4or:
.weak int4out
int4out:
.weak int4pl
int4pl:
.weak int4range_canonical
int4range_canonical:
.weak int4range_subdiff
int4range_subdiff:
.weak int4recv
int4recv:
.weak int4send
int4send:
.weak int4shl
int4shl:
.weak int4shr
int4shr:
.weak int4smaller
int4smaller:
.weak int4um
int4um:
.weak int4up
int4up:
.weak int4xor
int4xor:
.weak int64_div_fast_to_numeric
int64_div_fast_to_numeric:
.weak int64_to_numeric
int64_to_numeric:
.weak int82
int82:
.weak int82div
int82div:
.weak int82eq
int82eq:
.weak int82ge
int82ge:
.weak int82gt
int82gt:
.weak int82le
int82le:
.weak int82lt
int82lt:
.weak int82mi
int82mi:
.weak int82mul
int82mul:
.weak int82ne
int82ne:
.weak int82pl
int82pl:
.weak int84
int84:
.weak int84div
int84div:
.weak int84eq
int84eq:
.weak int84ge
int84ge:
.weak int84gt
int84gt:
.weak int84le
int84le:
.weak int84lt
int84lt:
.weak int84mi
int84mi:
.weak int84mul
int84mul:
.weak int84ne
int84ne:
.weak int84pl
int84pl:
.weak int8_accum
int8_accum:
.weak int8_accum_inv
int8_accum_inv:
.weak int8_avg
int8_avg:
.weak int8_avg_accum
int8_avg_accum:
.weak int8_avg_accum_inv
int8_avg_accum_inv:
.weak int8_avg_combine
int8_avg_combine:
.weak int8_avg_deserialize
int8_avg_deserialize:
.weak int8_avg_serialize
int8_avg_serialize:
.weak int8_cash
int8_cash:
.weak int8_mul_cash
int8_mul_cash:
.weak int8_numeric
int8_numeric:
.weak int8_sum
int8_sum:
.weak int8_to_char
int8_to_char:
.weak int8abs
int8abs:
.weak int8and
int8and:
.weak int8dec
int8dec:
.weak int8dec_any
int8dec_any:
.weak int8div
int8div:
.weak int8eq
int8eq:
.weak int8gcd
int8gcd:
.weak int8ge
int8ge:
.weak int8gt
int8gt:
.weak int8in
int8in:
.weak int8inc
int8inc:
.weak int8inc_any
int8inc_any:
.weak int8inc_float8_float8
int8inc_float8_float8:
.weak int8inc_support
int8inc_support:
.weak int8larger
int8larger:
.weak int8lcm
int8lcm:
.weak int8le
int8le:
.weak int8lt
int8lt:
.weak int8mi
int8mi:
.weak int8mod
int8mod:
.weak int8mul
int8mul:
.weak int8ne
int8ne:
.weak int8not
int8not:
.weak int8or
int8or:
.weak int8out
int8out:
.weak int8pl
int8pl:
.weak int8range_canonical
int8range_canonical:
.weak int8range_subdiff
int8range_subdiff:
.weak int8recv
int8recv:
.weak int8send
int8send:
.weak int8shl
int8shl:
.weak int8shr
int8shr:
.weak int8smaller
int8smaller:
.weak int8um
int8um:
.weak int8up
int8up:
.weak int8xor
int8xor:
.weak inter_lb
inter_lb:
.weak inter_sb
inter_sb:
.weak inter_sl
inter_sl:
.weak internal_in
internal_in:
.weak internal_out
internal_out:
.weak internalerrposition
internalerrposition:
.weak internalerrquery
internalerrquery:
.weak interpret_function_parameter_list
interpret_function_parameter_list:
.weak interval2itm
interval2itm:
.weak interval_accum
interval_accum:
.weak interval_accum_inv
interval_accum_inv:
.weak interval_avg
interval_avg:
.weak interval_cmp
interval_cmp:
.weak interval_combine
interval_combine:
.weak interval_div
interval_div:
.weak interval_eq
interval_eq:
.weak interval_finite
interval_finite:
.weak interval_ge
interval_ge:
.weak interval_gt
interval_gt:
.weak interval_hash
interval_hash:
.weak interval_hash_extended
interval_hash_extended:
.weak interval_in
interval_in:
.weak interval_justify_days
interval_justify_days:
.weak interval_justify_hours
interval_justify_hours:
.weak interval_justify_interval
interval_justify_interval:
.weak interval_larger
interval_larger:
.weak interval_le
interval_le:
.weak interval_lt
interval_lt:
.weak interval_mi
interval_mi:
.weak interval_mul
interval_mul:
.weak interval_ne
interval_ne:
.weak interval_out
interval_out:
.weak interval_part
interval_part:
.weak interval_pl
interval_pl:
.weak interval_recv
interval_recv:
.weak interval_scale
interval_scale:
.weak interval_send
interval_send:
.weak interval_smaller
interval_smaller:
.weak interval_support
interval_support:
.weak interval_time
interval_time:
.weak interval_to_char
interval_to_char:
.weak interval_trunc
interval_trunc:
.weak interval_um
interval_um:
.weak intervaltypmodin
intervaltypmodin:
.weak intervaltypmodout
intervaltypmodout:
.weak isAnyTempNamespace
isAnyTempNamespace:
.weak isLockedRefname
isLockedRefname:
.weak isOtherTempNamespace
isOtherTempNamespace:
.weak isQueryUsingTempRelation
isQueryUsingTempRelation:
.weak isTempNamespace
isTempNamespace:
.weak isTempOrTempToastNamespace
isTempOrTempToastNamespace:
.weak isTempToastNamespace
isTempToastNamespace:
.weak is_admin_of_role
is_admin_of_role:
.weak is_andclause
is_andclause:
.weak is_dummy_rel
is_dummy_rel:
.weak is_encoding_supported_by_icu
is_encoding_supported_by_icu:
.weak is_funcclause
is_funcclause:
.weak is_infinite
is_infinite:
.weak is_member_of_role
is_member_of_role:
.weak is_member_of_role_nosuper
is_member_of_role_nosuper:
.weak is_notclause
is_notclause:
.weak is_objectclass_supported
is_objectclass_supported:
.weak is_opclause
is_opclause:
.weak is_orclause
is_orclause:
.weak is_parallel_safe
is_parallel_safe:
.weak is_projection_capable_path
is_projection_capable_path:
.weak is_projection_capable_plan
is_projection_capable_plan:
.weak is_pseudo_constant_clause
is_pseudo_constant_clause:
.weak is_pseudo_constant_clause_relids
is_pseudo_constant_clause_relids:
.weak is_pseudo_constant_for_index
is_pseudo_constant_for_index:
.weak is_publishable_relation
is_publishable_relation:
.weak is_redundant_derived_clause
is_redundant_derived_clause:
.weak is_redundant_with_indexclauses
is_redundant_with_indexclauses:
.weak is_schema_publication
is_schema_publication:
.weak is_unixsock_path
is_unixsock_path:
.weak is_utf16_surrogate_first
is_utf16_surrogate_first:
.weak is_utf16_surrogate_second
is_utf16_surrogate_second:
.weak is_valid_unicode_codepoint
is_valid_unicode_codepoint:
.weak isoweek2date
isoweek2date:
.weak isoweek2j
isoweek2j:
.weak isoweekdate2date
isoweekdate2date:
.weak issue_xlog_fsync
issue_xlog_fsync:
.weak itemptr_decode
itemptr_decode:
.weak itemptr_encode
itemptr_encode:
.weak itm2interval
itm2interval:
.weak itmin2interval
itmin2interval:
.weak j2date
j2date:
.weak j2day
j2day:
.weak jit_compile_expr
jit_compile_expr:
.weak jit_release_context
jit_release_context:
.weak jit_reset_after_error
jit_reset_after_error:
.weak join_clause_is_movable_into
join_clause_is_movable_into:
.weak join_clause_is_movable_to
join_clause_is_movable_to:
.weak join_path_components
join_path_components:
.weak join_search_one_level
join_search_one_level:
.weak join_selectivity
join_selectivity:
.weak json_agg_finalfn
json_agg_finalfn:
.weak json_agg_strict_transfn
json_agg_strict_transfn:
.weak json_agg_transfn
json_agg_transfn:
.weak json_array_element
json_array_element:
.weak json_array_element_text
json_array_element_text:
.weak json_array_elements
json_array_elements:
.weak json_array_elements_text
json_array_elements_text:
.weak json_array_length
json_array_length:
.weak json_build_array
json_build_array:
.weak json_build_array_noargs
json_build_array_noargs:
.weak json_build_array_worker
json_build_array_worker:
.weak json_build_object
json_build_object:
.weak json_build_object_noargs
json_build_object_noargs:
.weak json_build_object_worker
json_build_object_worker:
.weak json_each
json_each:
.weak json_each_text
json_each_text:
.weak json_extract_path
json_extract_path:
.weak json_extract_path_text
json_extract_path_text:
.weak json_in
json_in:
.weak json_object
json_object:
.weak json_object_agg_finalfn
json_object_agg_finalfn:
.weak json_object_agg_strict_transfn
json_object_agg_strict_transfn:
.weak json_object_agg_transfn
json_object_agg_transfn:
.weak json_object_agg_unique_strict_transfn
json_object_agg_unique_strict_transfn:
.weak json_object_agg_unique_transfn
json_object_agg_unique_transfn:
.weak json_object_field
json_object_field:
.weak json_object_field_text
json_object_field_text:
.weak json_object_keys
json_object_keys:
.weak json_object_two_arg
json_object_two_arg:
.weak json_out
json_out:
.weak json_populate_record
json_populate_record:
.weak json_populate_recordset
json_populate_recordset:
.weak json_recv
json_recv:
.weak json_send
json_send:
.weak json_string_to_tsvector
json_string_to_tsvector:
.weak json_string_to_tsvector_byid
json_string_to_tsvector_byid:
.weak json_strip_nulls
json_strip_nulls:
.weak json_to_record
json_to_record:
.weak json_to_recordset
json_to_recordset:
.weak json_to_tsvector
json_to_tsvector:
.weak json_to_tsvector_byid
json_to_tsvector_byid:
.weak json_typeof
json_typeof:
.weak json_validate
json_validate:
.weak jsonb_agg_finalfn
jsonb_agg_finalfn:
.weak jsonb_agg_strict_transfn
jsonb_agg_strict_transfn:
.weak jsonb_agg_transfn
jsonb_agg_transfn:
.weak jsonb_array_element
jsonb_array_element:
.weak jsonb_array_element_text
jsonb_array_element_text:
.weak jsonb_array_elements
jsonb_array_elements:
.weak jsonb_array_elements_text
jsonb_array_elements_text:
.weak jsonb_array_length
jsonb_array_length:
.weak jsonb_bool
jsonb_bool:
.weak jsonb_build_array
jsonb_build_array:
.weak jsonb_build_array_noargs
jsonb_build_array_noargs:
.weak jsonb_build_array_worker
jsonb_build_array_worker:
.weak jsonb_build_object
jsonb_build_object:
.weak jsonb_build_object_noargs
jsonb_build_object_noargs:
.weak jsonb_build_object_worker
jsonb_build_object_worker:
.weak jsonb_cmp
jsonb_cmp:
.weak jsonb_concat
jsonb_concat:
.weak jsonb_contained
jsonb_contained:
.weak jsonb_contains
jsonb_contains:
.weak jsonb_delete
jsonb_delete:
.weak jsonb_delete_array
jsonb_delete_array:
.weak jsonb_delete_idx
jsonb_delete_idx:
.weak jsonb_delete_path
jsonb_delete_path:
.weak jsonb_each
jsonb_each:
.weak jsonb_each_text
jsonb_each_text:
.weak jsonb_eq
jsonb_eq:
.weak jsonb_exists
jsonb_exists:
.weak jsonb_exists_all
jsonb_exists_all:
.weak jsonb_exists_any
jsonb_exists_any:
.weak jsonb_extract_path
jsonb_extract_path:
.weak jsonb_extract_path_text
jsonb_extract_path_text:
.weak jsonb_float4
jsonb_float4:
.weak jsonb_float8
jsonb_float8:
.weak jsonb_ge
jsonb_ge:
.weak jsonb_get_element
jsonb_get_element:
.weak jsonb_gt
jsonb_gt:
.weak jsonb_hash
jsonb_hash:
.weak jsonb_hash_extended
jsonb_hash_extended:
.weak jsonb_in
jsonb_in:
.weak jsonb_insert
jsonb_insert:
.weak jsonb_int2
jsonb_int2:
.weak jsonb_int4
jsonb_int4:
.weak jsonb_int8
jsonb_int8:
.weak jsonb_le
jsonb_le:
.weak jsonb_lt
jsonb_lt:
.weak jsonb_ne
jsonb_ne:
.weak jsonb_numeric
jsonb_numeric:
.weak jsonb_object
jsonb_object:
.weak jsonb_object_agg_finalfn
jsonb_object_agg_finalfn:
.weak jsonb_object_agg_strict_transfn
jsonb_object_agg_strict_transfn:
.weak jsonb_object_agg_transfn
jsonb_object_agg_transfn:
.weak jsonb_object_agg_unique_strict_transfn
jsonb_object_agg_unique_strict_transfn:
.weak jsonb_object_agg_unique_transfn
jsonb_object_agg_unique_transfn:
.weak jsonb_object_field
jsonb_object_field:
.weak jsonb_object_field_text
jsonb_object_field_text:
.weak jsonb_object_keys
jsonb_object_keys:
.weak jsonb_object_two_arg
jsonb_object_two_arg:
.weak jsonb_out
jsonb_out:
.weak jsonb_path_exists
jsonb_path_exists:
.weak jsonb_path_exists_opr
jsonb_path_exists_opr:
.weak jsonb_path_exists_tz
jsonb_path_exists_tz:
.weak jsonb_path_match
jsonb_path_match:
.weak jsonb_path_match_opr
jsonb_path_match_opr:
.weak jsonb_path_match_tz
jsonb_path_match_tz:
.weak jsonb_path_query
jsonb_path_query:
.weak jsonb_path_query_array
jsonb_path_query_array:
.weak jsonb_path_query_array_tz
jsonb_path_query_array_tz:
.weak jsonb_path_query_first
jsonb_path_query_first:
.weak jsonb_path_query_first_tz
jsonb_path_query_first_tz:
.weak jsonb_path_query_tz
jsonb_path_query_tz:
.weak jsonb_populate_record
jsonb_populate_record:
.weak jsonb_populate_recordset
jsonb_populate_recordset:
.weak jsonb_pretty
jsonb_pretty:
.weak jsonb_recv
jsonb_recv:
.weak jsonb_send
jsonb_send:
.weak jsonb_set
jsonb_set:
.weak jsonb_set_element
jsonb_set_element:
.weak jsonb_set_lax
jsonb_set_lax:
.weak jsonb_string_to_tsvector
jsonb_string_to_tsvector:
.weak jsonb_string_to_tsvector_byid
jsonb_string_to_tsvector_byid:
.weak jsonb_strip_nulls
jsonb_strip_nulls:
.weak jsonb_subscript_handler
jsonb_subscript_handler:
.weak jsonb_to_record
jsonb_to_record:
.weak jsonb_to_recordset
jsonb_to_recordset:
.weak jsonb_to_tsvector
jsonb_to_tsvector:
.weak jsonb_to_tsvector_byid
jsonb_to_tsvector_byid:
.weak jsonb_typeof
jsonb_typeof:
.weak jsonpath_in
jsonpath_in:
.weak jsonpath_out
jsonpath_out:
.weak jsonpath_recv
jsonpath_recv:
.weak jsonpath_send
jsonpath_send:
.weak language_handler_in
language_handler_in:
.weak language_handler_out
language_handler_out:
.weak lappend
lappend:
.weak lappend_int
lappend_int:
.weak lappend_oid
lappend_oid:
.weak lappend_xid
lappend_xid:
.weak last_dir_separator
last_dir_separator:
.weak lastval
lastval:
.weak latin2mic
latin2mic:
.weak latin2mic_with_table
latin2mic_with_table:
.weak lcons
lcons:
.weak lcons_int
lcons_int:
.weak lcons_oid
lcons_oid:
.weak left_oper
left_oper:
.weak length
length:
.weak length_in_encoding
length_in_encoding:
.weak like_escape
like_escape:
.weak like_escape_bytea
like_escape_bytea:
.weak likejoinsel
likejoinsel:
.weak likesel
likesel:
.weak limit_needed
limit_needed:
.weak line_construct_pp
line_construct_pp:
.weak line_distance
line_distance:
.weak line_eq
line_eq:
.weak line_horizontal
line_horizontal:
.weak line_in
line_in:
.weak line_interpt
line_interpt:
.weak line_intersect
line_intersect:
.weak line_out
line_out:
.weak line_parallel
line_parallel:
.weak line_perp
line_perp:
.weak line_recv
line_recv:
.weak line_send
line_send:
.weak line_vertical
line_vertical:
.weak list_append_unique
list_append_unique:
.weak list_append_unique_int
list_append_unique_int:
.weak list_append_unique_oid
list_append_unique_oid:
.weak list_append_unique_ptr
list_append_unique_ptr:
.weak list_cell_number
list_cell_number:
.weak list_concat
list_concat:
.weak list_concat_copy
list_concat_copy:
.weak list_concat_unique
list_concat_unique:
.weak list_concat_unique_int
list_concat_unique_int:
.weak list_concat_unique_oid
list_concat_unique_oid:
.weak list_concat_unique_ptr
list_concat_unique_ptr:
.weak list_copy
list_copy:
.weak list_copy_deep
list_copy_deep:
.weak list_copy_head
list_copy_head:
.weak list_copy_tail
list_copy_tail:
.weak list_deduplicate_oid
list_deduplicate_oid:
.weak list_delete
list_delete:
.weak list_delete_cell
list_delete_cell:
.weak list_delete_first
list_delete_first:
.weak list_delete_first_n
list_delete_first_n:
.weak list_delete_int
list_delete_int:
.weak list_delete_last
list_delete_last:
.weak list_delete_nth_cell
list_delete_nth_cell:
.weak list_delete_oid
list_delete_oid:
.weak list_delete_ptr
list_delete_ptr:
.weak list_difference
list_difference:
.weak list_difference_int
list_difference_int:
.weak list_difference_oid
list_difference_oid:
.weak list_difference_ptr
list_difference_ptr:
.weak list_free
list_free:
.weak list_free_deep
list_free_deep:
.weak list_head
list_head:
.weak list_insert_nth
list_insert_nth:
.weak list_insert_nth_int
list_insert_nth_int:
.weak list_insert_nth_oid
list_insert_nth_oid:
.weak list_int_cmp
list_int_cmp:
.weak list_intersection
list_intersection:
.weak list_intersection_int
list_intersection_int:
.weak list_last_cell
list_last_cell:
.weak list_length
list_length:
.weak list_make1_impl
list_make1_impl:
.weak list_make2_impl
list_make2_impl:
.weak list_make3_impl
list_make3_impl:
.weak list_make4_impl
list_make4_impl:
.weak list_make5_impl
list_make5_impl:
.weak list_member
list_member:
.weak list_member_int
list_member_int:
.weak list_member_oid
list_member_oid:
.weak list_member_ptr
list_member_ptr:
.weak list_member_xid
list_member_xid:
.weak list_nth
list_nth:
.weak list_nth_cell
list_nth_cell:
.weak list_nth_int
list_nth_int:
.weak list_nth_oid
list_nth_oid:
.weak list_oid_cmp
list_oid_cmp:
.weak list_second_cell
list_second_cell:
.weak list_sort
list_sort:
.weak list_tail
list_tail:
.weak list_truncate
list_truncate:
.weak list_union
list_union:
.weak list_union_int
list_union_int:
.weak list_union_oid
list_union_oid:
.weak list_union_ptr
list_union_ptr:
.weak lnext
lnext:
.weak load_external_function
load_external_function:
.weak load_file
load_file:
.weak local2local
local2local:
.weak locate_agg_of_level
locate_agg_of_level:
.weak locate_var_of_level
locate_var_of_level:
.weak locate_windowfunc
locate_windowfunc:
.weak lock_twophase_postabort
lock_twophase_postabort:
.weak lock_twophase_postcommit
lock_twophase_postcommit:
.weak lock_twophase_recover
lock_twophase_recover:
.weak lock_twophase_standby_recover
lock_twophase_standby_recover:
.weak log_newpage
log_newpage:
.weak log_newpage_buffer
log_newpage_buffer:
.weak log_newpage_range
log_newpage_range:
.weak log_newpages
log_newpages:
.weak log_status_format
log_status_format:
.weak logicalrep_message_type
logicalrep_message_type:
.weak logicalrep_read_begin
logicalrep_read_begin:
.weak logicalrep_read_begin_prepare
logicalrep_read_begin_prepare:
.weak logicalrep_read_commit
logicalrep_read_commit:
.weak logicalrep_read_commit_prepared
logicalrep_read_commit_prepared:
.weak logicalrep_read_delete
logicalrep_read_delete:
.weak logicalrep_read_insert
logicalrep_read_insert:
.weak logicalrep_read_origin
logicalrep_read_origin:
.weak logicalrep_read_prepare
logicalrep_read_prepare:
.weak logicalrep_read_rel
logicalrep_read_rel:
.weak logicalrep_read_rollback_prepared
logicalrep_read_rollback_prepared:
.weak logicalrep_read_stream_abort
logicalrep_read_stream_abort:
.weak logicalrep_read_stream_commit
logicalrep_read_stream_commit:
.weak logicalrep_read_stream_prepare
logicalrep_read_stream_prepare:
.weak logicalrep_read_stream_start
logicalrep_read_stream_start:
.weak logicalrep_read_truncate
logicalrep_read_truncate:
.weak logicalrep_read_typ
logicalrep_read_typ:
.weak logicalrep_read_update
logicalrep_read_update:
.weak logicalrep_write_begin
logicalrep_write_begin:
.weak logicalrep_write_begin_prepare
logicalrep_write_begin_prepare:
.weak logicalrep_write_commit
logicalrep_write_commit:
.weak logicalrep_write_commit_prepared
logicalrep_write_commit_prepared:
.weak logicalrep_write_delete
logicalrep_write_delete:
.weak logicalrep_write_insert
logicalrep_write_insert:
.weak logicalrep_write_message
logicalrep_write_message:
.weak logicalrep_write_origin
logicalrep_write_origin:
.weak logicalrep_write_prepare
logicalrep_write_prepare:
.weak logicalrep_write_rel
logicalrep_write_rel:
.weak logicalrep_write_rollback_prepared
logicalrep_write_rollback_prepared:
.weak logicalrep_write_stream_abort
logicalrep_write_stream_abort:
.weak logicalrep_write_stream_commit
logicalrep_write_stream_commit:
.weak logicalrep_write_stream_prepare
logicalrep_write_stream_prepare:
.weak logicalrep_write_stream_start
logicalrep_write_stream_start:
.weak logicalrep_write_stream_stop
logicalrep_write_stream_stop:
.weak logicalrep_write_truncate
logicalrep_write_truncate:
.weak logicalrep_write_typ
logicalrep_write_typ:
.weak logicalrep_write_update
logicalrep_write_update:
.weak looks_like_temp_rel_name
looks_like_temp_rel_name:
.weak lookup_external_function
lookup_external_function:
.weak lookup_rowtype_tupdesc
lookup_rowtype_tupdesc:
.weak lookup_rowtype_tupdesc_copy
lookup_rowtype_tupdesc_copy:
.weak lookup_rowtype_tupdesc_domain
lookup_rowtype_tupdesc_domain:
.weak lookup_rowtype_tupdesc_noerror
lookup_rowtype_tupdesc_noerror:
.weak lookup_ts_config_cache
lookup_ts_config_cache:
.weak lookup_ts_dictionary_cache
lookup_ts_dictionary_cache:
.weak lookup_ts_parser_cache
lookup_ts_parser_cache:
.weak lookup_type_cache
lookup_type_cache:
.weak lower
lower:
.weak lp_flags
lp_flags:
.weak lp_len
lp_len:
.weak lp_off
lp_off:
.weak lpad
lpad:
.weak lseg_center
lseg_center:
.weak lseg_construct
lseg_construct:
.weak lseg_distance
lseg_distance:
.weak lseg_eq
lseg_eq:
.weak lseg_ge
lseg_ge:
.weak lseg_gt
lseg_gt:
.weak lseg_horizontal
lseg_horizontal:
.weak lseg_in
lseg_in:
.weak lseg_interpt
lseg_interpt:
.weak lseg_intersect
lseg_intersect:
.weak lseg_le
lseg_le:
.weak lseg_length
lseg_length:
.weak lseg_lt
lseg_lt:
.weak lseg_ne
lseg_ne:
.weak lseg_out
lseg_out:
.weak lseg_parallel
lseg_parallel:
.weak lseg_perp
lseg_perp:
.weak lseg_recv
lseg_recv:
.weak lseg_send
lseg_send:
.weak lseg_vertical
lseg_vertical:
.weak ltrim
ltrim:
.weak ltrim1
ltrim1:
.weak macaddr8_and
macaddr8_and:
.weak macaddr8_cmp
macaddr8_cmp:
.weak macaddr8_eq
macaddr8_eq:
.weak macaddr8_ge
macaddr8_ge:
.weak macaddr8_gt
macaddr8_gt:
.weak macaddr8_in
macaddr8_in:
.weak macaddr8_le
macaddr8_le:
.weak macaddr8_lt
macaddr8_lt:
.weak macaddr8_ne
macaddr8_ne:
.weak macaddr8_not
macaddr8_not:
.weak macaddr8_or
macaddr8_or:
.weak macaddr8_out
macaddr8_out:
.weak macaddr8_recv
macaddr8_recv:
.weak macaddr8_send
macaddr8_send:
.weak macaddr8_set7bit
macaddr8_set7bit:
.weak macaddr8_trunc
macaddr8_trunc:
.weak macaddr8tomacaddr
macaddr8tomacaddr:
.weak macaddr_and
macaddr_and:
.weak macaddr_cmp
macaddr_cmp:
.weak macaddr_eq
macaddr_eq:
.weak macaddr_ge
macaddr_ge:
.weak macaddr_gt
macaddr_gt:
.weak macaddr_in
macaddr_in:
.weak macaddr_le
macaddr_le:
.weak macaddr_lt
macaddr_lt:
.weak macaddr_ne
macaddr_ne:
.weak macaddr_not
macaddr_not:
.weak macaddr_or
macaddr_or:
.weak macaddr_out
macaddr_out:
.weak macaddr_recv
macaddr_recv:
.weak macaddr_send
macaddr_send:
.weak macaddr_sortsupport
macaddr_sortsupport:
.weak macaddr_trunc
macaddr_trunc:
.weak macaddrtomacaddr8
macaddrtomacaddr8:
.weak makeA_Expr
makeA_Expr:
.weak makeAlias
makeAlias:
.weak makeArrayResult
makeArrayResult:
.weak makeArrayResultAny
makeArrayResultAny:
.weak makeArrayResultArr
makeArrayResultArr:
.weak makeArrayTypeName
makeArrayTypeName:
.weak makeBitString
makeBitString:
.weak makeBoolConst
makeBoolConst:
.weak makeBoolExpr
makeBoolExpr:
.weak makeBoolean
makeBoolean:
.weak makeColumnDef
makeColumnDef:
.weak makeConst
makeConst:
.weak makeDefElem
makeDefElem:
.weak makeDefElemExtended
makeDefElemExtended:
.weak makeFloat
makeFloat:
.weak makeFromExpr
makeFromExpr:
.weak makeFuncCall
makeFuncCall:
.weak makeFuncExpr
makeFuncExpr:
.weak makeGroupingSet
makeGroupingSet:
.weak makeIndexInfo
makeIndexInfo:
.weak makeInteger
makeInteger:
.weak makeJsonEncoding
makeJsonEncoding:
.weak makeJsonFormat
makeJsonFormat:
.weak makeJsonIsPredicate
makeJsonIsPredicate:
.weak makeJsonKeyValue
makeJsonKeyValue:
.weak makeJsonValueExpr
makeJsonValueExpr:
.weak makeMdArrayResult
makeMdArrayResult:
.weak makeMultirangeTypeName
makeMultirangeTypeName:
.weak makeNullConst
makeNullConst:
.weak makeObjectName
makeObjectName:
.weak makeOperatorDependencies
makeOperatorDependencies:
.weak makeParamList
makeParamList:
.weak makeRangeVar
makeRangeVar:
.weak makeRangeVarFromNameList
makeRangeVarFromNameList:
.weak makeRelabelType
makeRelabelType:
.weak makeSimpleA_Expr
makeSimpleA_Expr:
.weak makeSortGroupClauseForSetOp
makeSortGroupClauseForSetOp:
.weak makeString
makeString:
.weak makeStringInfo
makeStringInfo:
.weak makeTSQuerySign
makeTSQuerySign:
.weak makeTargetEntry
makeTargetEntry:
.weak makeTypeName
makeTypeName:
.weak makeTypeNameFromNameList
makeTypeNameFromNameList:
.weak makeTypeNameFromOid
makeTypeNameFromOid:
.weak makeVacuumRelation
makeVacuumRelation:
.weak makeVar
makeVar:
.weak makeVarFromTargetEntry
makeVarFromTargetEntry:
.weak makeWholeRowVar
makeWholeRowVar:
.weak make_absolute_path
make_absolute_path:
.weak make_agg
make_agg:
.weak make_and_qual
make_and_qual:
.weak make_andclause
make_andclause:
.weak make_ands_explicit
make_ands_explicit:
.weak make_ands_implicit
make_ands_implicit:
.weak make_append_rel_info
make_append_rel_info:
.weak make_attrmap
make_attrmap:
.weak make_canonical_pathkey
make_canonical_pathkey:
.weak make_const
make_const:
.weak make_date
make_date:
.weak make_empty_acl
make_empty_acl:
.weak make_empty_range
make_empty_range:
.weak make_expanded_record_from_datum
make_expanded_record_from_datum:
.weak make_expanded_record_from_exprecord
make_expanded_record_from_exprecord:
.weak make_expanded_record_from_tupdesc
make_expanded_record_from_tupdesc:
.weak make_expanded_record_from_typeid
make_expanded_record_from_typeid:
.weak make_fn_arguments
make_fn_arguments:
.weak make_foreignscan
make_foreignscan:
.weak make_inner_pathkeys_for_merge
make_inner_pathkeys_for_merge:
.weak make_interval
make_interval:
.weak make_join_rel
make_join_rel:
.weak make_limit
make_limit:
.weak make_native_path
make_native_path:
.weak make_notclause
make_notclause:
.weak make_one_rel
make_one_rel:
.weak make_op
make_op:
.weak make_opclause
make_opclause:
.weak make_orclause
make_orclause:
.weak make_parsestate
make_parsestate:
.weak make_partition_pruneinfo
make_partition_pruneinfo:
.weak make_pathkeys_for_sortclauses
make_pathkeys_for_sortclauses:
.weak make_pathkeys_for_sortclauses_extended
make_pathkeys_for_sortclauses_extended:
.weak make_pathtarget_from_tlist
make_pathtarget_from_tlist:
.weak make_range
make_range:
.weak make_restrictinfo
make_restrictinfo:
.weak make_scalar_array_op
make_scalar_array_op:
.weak make_sort_from_sortclauses
make_sort_from_sortclauses:
.weak make_time
make_time:
.weak make_timestamp
make_timestamp:
.weak make_timestamptz
make_timestamptz:
.weak make_timestamptz_at_timezone
make_timestamptz_at_timezone:
.weak make_tlist_from_pathtarget
make_tlist_from_pathtarget:
.weak make_tsvector
make_tsvector:
.weak makeaclitem
makeaclitem:
.weak map_variable_attnos
map_variable_attnos:
.weak markNullableIfNeeded
markNullableIfNeeded:
.weak markVarForSelectPriv
markVarForSelectPriv:
.weak mark_dummy_rel
mark_dummy_rel:
.weak mark_partial_aggref
mark_partial_aggref:
.weak match_eclasses_to_foreign_key_col
match_eclasses_to_foreign_key_col:
.weak match_foreign_keys_to_quals
match_foreign_keys_to_quals:
.weak match_index_to_operand
match_index_to_operand:
.weak matchingjoinsel
matchingjoinsel:
.weak matchingsel
matchingsel:
.weak materialize_finished_plan
materialize_finished_plan:
.weak max_parallel_hazard
max_parallel_hazard:
.weak mcv_selectivity
mcv_selectivity:
.weak md5_bytea
md5_bytea:
.weak md5_crypt_verify
md5_crypt_verify:
.weak md5_text
md5_text:
.weak mda_get_offset_values
mda_get_offset_values:
.weak mda_get_prod
mda_get_prod:
.weak mda_get_range
mda_get_range:
.weak mda_next_tuple
mda_next_tuple:
.weak member_can_set_role
member_can_set_role:
.weak mergejoinscansel
mergejoinscansel:
.weak message_level_is_interesting
message_level_is_interesting:
.weak mic2latin
mic2latin:
.weak mic2latin_with_table
mic2latin_with_table:
.weak min_join_parameterization
min_join_parameterization:
.weak minimal_expand_tuple
minimal_expand_tuple:
.weak minimal_tuple_from_heap_tuple
minimal_tuple_from_heap_tuple:
.weak mode_final
mode_final:
.weak moveArrayTypeName
moveArrayTypeName:
.weak mul_d_interval
mul_d_interval:
.weak mul_size
mul_size:
.weak multirange_adjacent_multirange
multirange_adjacent_multirange:
.weak multirange_adjacent_range
multirange_adjacent_range:
.weak multirange_after_multirange
multirange_after_multirange:
.weak multirange_after_range
multirange_after_range:
.weak multirange_agg_transfn
multirange_agg_transfn:
.weak multirange_before_multirange
multirange_before_multirange:
.weak multirange_before_range
multirange_before_range:
.weak multirange_cmp
multirange_cmp:
.weak multirange_constructor0
multirange_constructor0:
.weak multirange_constructor1
multirange_constructor1:
.weak multirange_constructor2
multirange_constructor2:
.weak multirange_contained_by_multirange
multirange_contained_by_multirange:
.weak multirange_contained_by_range
multirange_contained_by_range:
.weak multirange_contains_elem
multirange_contains_elem:
.weak multirange_contains_multirange
multirange_contains_multirange:
.weak multirange_contains_range
multirange_contains_range:
.weak multirange_empty
multirange_empty:
.weak multirange_eq
multirange_eq:
.weak multirange_ge
multirange_ge:
.weak multirange_gist_compress
multirange_gist_compress:
.weak multirange_gist_consistent
multirange_gist_consistent:
.weak multirange_gt
multirange_gt:
.weak multirange_in
multirange_in:
.weak multirange_intersect
multirange_intersect:
.weak multirange_intersect_agg_transfn
multirange_intersect_agg_transfn:
.weak multirange_le
multirange_le:
.weak multirange_lower
multirange_lower:
.weak multirange_lower_inc
multirange_lower_inc:
.weak multirange_lower_inf
multirange_lower_inf:
.weak multirange_lt
multirange_lt:
.weak multirange_minus
multirange_minus:
.weak multirange_ne
multirange_ne:
.weak multirange_out
multirange_out:
.weak multirange_overlaps_multirange
multirange_overlaps_multirange:
.weak multirange_overlaps_range
multirange_overlaps_range:
.weak multirange_overleft_multirange
multirange_overleft_multirange:
.weak multirange_overleft_range
multirange_overleft_range:
.weak multirange_overright_multirange
multirange_overright_multirange:
.weak multirange_overright_range
multirange_overright_range:
.weak multirange_recv
multirange_recv:
.weak multirange_send
multirange_send:
.weak multirange_typanalyze
multirange_typanalyze:
.weak multirange_union
multirange_union:
.weak multirange_unnest
multirange_unnest:
.weak multirange_upper
multirange_upper:
.weak multirange_upper_inc
multirange_upper_inc:
.weak multirange_upper_inf
multirange_upper_inf:
.weak multirangesel
multirangesel:
.weak multixact_desc
multixact_desc:
.weak multixact_identify
multixact_identify:
.weak multixact_redo
multixact_redo:
.weak multixact_twophase_postabort
multixact_twophase_postabort:
.weak multixact_twophase_postcommit
multixact_twophase_postcommit:
.weak multixact_twophase_recover
multixact_twophase_recover:
.weak multixactmemberssyncfiletag
multixactmemberssyncfiletag:
.weak multixactoffsetssyncfiletag
multixactoffsetssyncfiletag:
.weak mxid_age
mxid_age:
.weak mxid_to_string
mxid_to_string:
.weak name_bpchar
name_bpchar:
.weak name_text
name_text:
.weak nameconcatoid
nameconcatoid:
.weak nameeq
nameeq:
.weak nameeqtext
nameeqtext:
.weak namege
namege:
.weak namegetext
namegetext:
.weak namegt
namegt:
.weak namegttext
namegttext:
.weak nameiclike
nameiclike:
.weak nameicnlike
nameicnlike:
.weak nameicregexeq
nameicregexeq:
.weak nameicregexne
nameicregexne:
.weak namein
namein:
.weak namele
namele:
.weak nameletext
nameletext:
.weak namelike
namelike:
.weak namelt
namelt:
.weak namelttext
namelttext:
.weak namene
namene:
.weak namenetext
namenetext:
.weak namenlike
namenlike:
.weak nameout
nameout:
.weak namerecv
namerecv:
.weak nameregexeq
nameregexeq:
.weak nameregexne
nameregexne:
.weak namesend
namesend:
.weak namestrcmp
namestrcmp:
.weak namestrcpy
namestrcpy:
.weak negate_clause
negate_clause:
.weak neqjoinsel
neqjoinsel:
.weak neqsel
neqsel:
.weak network_broadcast
network_broadcast:
.weak network_cmp
network_cmp:
.weak network_eq
network_eq:
.weak network_family
network_family:
.weak network_ge
network_ge:
.weak network_gt
network_gt:
.weak network_host
network_host:
.weak network_hostmask
network_hostmask:
.weak network_larger
network_larger:
.weak network_le
network_le:
.weak network_lt
network_lt:
.weak network_masklen
network_masklen:
.weak network_ne
network_ne:
.weak network_netmask
network_netmask:
.weak network_network
network_network:
.weak network_overlap
network_overlap:
.weak network_scan_first
network_scan_first:
.weak network_scan_last
network_scan_last:
.weak network_show
network_show:
.weak network_smaller
network_smaller:
.weak network_sortsupport
network_sortsupport:
.weak network_sub
network_sub:
.weak network_subeq
network_subeq:
.weak network_subset_support
network_subset_support:
.weak network_sup
network_sup:
.weak network_supeq
network_supeq:
.weak networkjoinsel
networkjoinsel:
.weak networksel
networksel:
.weak new_bitfield_1
new_bitfield_1:
.weak new_object_addresses
new_object_addresses:
.weak nextval_oid
nextval_oid:
.weak nlikejoinsel
nlikejoinsel:
.weak nlikesel
nlikesel:
.weak nocache_index_getattr
nocache_index_getattr:
.weak nocachegetattr
nocachegetattr:
.weak nodeToString
nodeToString:
.weak nulltestsel
nulltestsel:
.weak numeric
numeric:
.weak numeric_abs
numeric_abs:
.weak numeric_accum
numeric_accum:
.weak numeric_accum_inv
numeric_accum_inv:
.weak numeric_add
numeric_add:
.weak numeric_add_opt_error
numeric_add_opt_error:
.weak numeric_avg
numeric_avg:
.weak numeric_avg_accum
numeric_avg_accum:
.weak numeric_avg_combine
numeric_avg_combine:
.weak numeric_avg_deserialize
numeric_avg_deserialize:
.weak numeric_avg_serialize
numeric_avg_serialize:
.weak numeric_cash
numeric_cash:
.weak numeric_ceil
numeric_ceil:
.weak numeric_cmp
numeric_cmp:
.weak numeric_combine
numeric_combine:
.weak numeric_deserialize
numeric_deserialize:
.weak numeric_div
numeric_div:
.weak numeric_div_opt_error
numeric_div_opt_error:
.weak numeric_div_trunc
numeric_div_trunc:
.weak numeric_eq
numeric_eq:
.weak numeric_exp
numeric_exp:
.weak numeric_fac
numeric_fac:
.weak numeric_float4
numeric_float4:
.weak numeric_float8
numeric_float8:
.weak numeric_float8_no_overflow
numeric_float8_no_overflow:
.weak numeric_floor
numeric_floor:
.weak numeric_gcd
numeric_gcd:
.weak numeric_ge
numeric_ge:
.weak numeric_gt
numeric_gt:
.weak numeric_in
numeric_in:
.weak numeric_inc
numeric_inc:
.weak numeric_int2
numeric_int2:
.weak numeric_int4
numeric_int4:
.weak numeric_int4_opt_error
numeric_int4_opt_error:
.weak numeric_int8
numeric_int8:
.weak numeric_is_inf
numeric_is_inf:
.weak numeric_is_nan
numeric_is_nan:
.weak numeric_larger
numeric_larger:
.weak numeric_lcm
numeric_lcm:
.weak numeric_le
numeric_le:
.weak numeric_ln
numeric_ln:
.weak numeric_log
numeric_log:
.weak numeric_lt
numeric_lt:
.weak numeric_maximum_size
numeric_maximum_size:
.weak numeric_min_scale
numeric_min_scale:
.weak numeric_mod
numeric_mod:
.weak numeric_mod_opt_error
numeric_mod_opt_error:
.weak numeric_mul
numeric_mul:
.weak numeric_mul_opt_error
numeric_mul_opt_error:
.weak numeric_ne
numeric_ne:
.weak numeric_normalize
numeric_normalize:
.weak numeric_out
numeric_out:
.weak numeric_out_sci
numeric_out_sci:
.weak numeric_pg_lsn
numeric_pg_lsn:
.weak numeric_poly_avg
numeric_poly_avg:
.weak numeric_poly_combine
numeric_poly_combine:
.weak numeric_poly_deserialize
numeric_poly_deserialize:
.weak numeric_poly_serialize
numeric_poly_serialize:
.weak numeric_poly_stddev_pop
numeric_poly_stddev_pop:
.weak numeric_poly_stddev_samp
numeric_poly_stddev_samp:
.weak numeric_poly_sum
numeric_poly_sum:
.weak numeric_poly_var_pop
numeric_poly_var_pop:
.weak numeric_poly_var_samp
numeric_poly_var_samp:
.weak numeric_power
numeric_power:
.weak numeric_recv
numeric_recv:
.weak numeric_round
numeric_round:
.weak numeric_scale
numeric_scale:
.weak numeric_send
numeric_send:
.weak numeric_serialize
numeric_serialize:
.weak numeric_sign
numeric_sign:
.weak numeric_smaller
numeric_smaller:
.weak numeric_sortsupport
numeric_sortsupport:
.weak numeric_sqrt
numeric_sqrt:
.weak numeric_stddev_pop
numeric_stddev_pop:
.weak numeric_stddev_samp
numeric_stddev_samp:
.weak numeric_sub
numeric_sub:
.weak numeric_sub_opt_error
numeric_sub_opt_error:
.weak numeric_sum
numeric_sum:
.weak numeric_support
numeric_support:
.weak numeric_to_char
numeric_to_char:
.weak numeric_to_number
numeric_to_number:
.weak numeric_trim_scale
numeric_trim_scale:
.weak numeric_trunc
numeric_trunc:
.weak numeric_uminus
numeric_uminus:
.weak numeric_uplus
numeric_uplus:
.weak numeric_var_pop
numeric_var_pop:
.weak numeric_var_samp
numeric_var_samp:
.weak numerictypmodin
numerictypmodin:
.weak numerictypmodout
numerictypmodout:
.weak numrange_subdiff
numrange_subdiff:
.weak object_aclcheck
object_aclcheck:
.weak object_address_present
object_address_present:
.weak object_ownercheck
object_ownercheck:
.weak oid_array_to_list
oid_array_to_list:
.weak oid_cmp
oid_cmp:
.weak oideq
oideq:
.weak oidge
oidge:
.weak oidgt
oidgt:
.weak oidin
oidin:
.weak oidlarger
oidlarger:
.weak oidle
oidle:
.weak oidlt
oidlt:
.weak oidne
oidne:
.weak oidout
oidout:
.weak oidparse
oidparse:
.weak oidrecv
oidrecv:
.weak oidsend
oidsend:
.weak oidsmaller
oidsmaller:
.weak oidtoi8
oidtoi8:
.weak oidvectoreq
oidvectoreq:
.weak oidvectorge
oidvectorge:
.weak oidvectorgt
oidvectorgt:
.weak oidvectorin
oidvectorin:
.weak oidvectorle
oidvectorle:
.weak oidvectorlt
oidvectorlt:
.weak oidvectorne
oidvectorne:
.weak oidvectorout
oidvectorout:
.weak oidvectorrecv
oidvectorrecv:
.weak oidvectorsend
oidvectorsend:
.weak oidvectortypes
oidvectortypes:
.weak on_dsm_detach
on_dsm_detach:
.weak on_exit_reset
on_exit_reset:
.weak on_pb
on_pb:
.weak on_pl
on_pl:
.weak on_ppath
on_ppath:
.weak on_proc_exit
on_proc_exit:
.weak on_ps
on_ps:
.weak on_sb
on_sb:
.weak on_shmem_exit
on_shmem_exit:
.weak on_sl
on_sl:
.weak op_hashjoinable
op_hashjoinable:
.weak op_in_opfamily
op_in_opfamily:
.weak op_input_types
op_input_types:
.weak op_mergejoinable
op_mergejoinable:
.weak op_strict
op_strict:
.weak op_volatile
op_volatile:
.weak oper
oper:
.weak oprfuncid
oprfuncid:
.weak oprid
oprid:
.weak ordered_set_transition
ordered_set_transition:
.weak ordered_set_transition_multi
ordered_set_transition_multi:
.weak outBitmapset
outBitmapset:
.weak outDatum
outDatum:
.weak outNode
outNode:
.weak outToken
outToken:
.weak overlaps_time
overlaps_time:
.weak overlaps_timestamp
overlaps_timestamp:
.weak overlaps_timetz
overlaps_timetz:
.weak pairingheap_add
pairingheap_add:
.weak pairingheap_allocate
pairingheap_allocate:
.weak pairingheap_first
pairingheap_first:
.weak pairingheap_free
pairingheap_free:
.weak pairingheap_remove
pairingheap_remove:
.weak pairingheap_remove_first
pairingheap_remove_first:
.weak palloc0_mul
palloc0_mul:
.weak palloc_aligned
palloc_aligned:
.weak palloc_extended
palloc_extended:
.weak palloc_mul
palloc_mul:
.weak palloc_mul_extended
palloc_mul_extended:
.weak parallel_vacuum_bulkdel_all_indexes
parallel_vacuum_bulkdel_all_indexes:
.weak parallel_vacuum_cleanup_all_indexes
parallel_vacuum_cleanup_all_indexes:
.weak parallel_vacuum_end
parallel_vacuum_end:
.weak parallel_vacuum_get_dead_items
parallel_vacuum_get_dead_items:
.weak parallel_vacuum_init
parallel_vacuum_init:
.weak parallel_vacuum_main
parallel_vacuum_main:
.weak parseTypeString
parseTypeString:
.weak parse_analyze_fixedparams
parse_analyze_fixedparams:
.weak parse_analyze_varparams
parse_analyze_varparams:
.weak parse_analyze_withcb
parse_analyze_withcb:
.weak parse_bool
parse_bool:
.weak parse_bool_with_len
parse_bool_with_len:
.weak parse_ident
parse_ident:
.weak parse_int
parse_int:
.weak parse_real
parse_real:
.weak parse_sub_analyze
parse_sub_analyze:
.weak parse_tsquery
parse_tsquery:
.weak parserOpenTable
parserOpenTable:
.weak parser_coercion_errposition
parser_coercion_errposition:
.weak parser_errposition
parser_errposition:
.weak parsetext
parsetext:
.weak partition_bounds_copy
partition_bounds_copy:
.weak partition_bounds_create
partition_bounds_create:
.weak partition_bounds_equal
partition_bounds_equal:
.weak partition_bounds_merge
partition_bounds_merge:
.weak partition_hash_bsearch
partition_hash_bsearch:
.weak partition_list_bsearch
partition_list_bsearch:
.weak partition_range_datum_bsearch
partition_range_datum_bsearch:
.weak partition_rbound_datum_cmp
partition_rbound_datum_cmp:
.weak partitioned_table_reloptions
partitioned_table_reloptions:
.weak partitions_are_ordered
partitions_are_ordered:
.weak path_add
path_add:
.weak path_add_pt
path_add_pt:
.weak path_area
path_area:
.weak path_close
path_close:
.weak path_contains_parent_reference
path_contains_parent_reference:
.weak path_distance
path_distance:
.weak path_div_pt
path_div_pt:
.weak path_in
path_in:
.weak path_inter
path_inter:
.weak path_is_prefix_of_path
path_is_prefix_of_path:
.weak path_is_relative_and_below_cwd
path_is_relative_and_below_cwd:
.weak path_is_safe_for_extraction
path_is_safe_for_extraction:
.weak path_isclosed
path_isclosed:
.weak path_isopen
path_isopen:
.weak path_length
path_length:
.weak path_mul_pt
path_mul_pt:
.weak path_n_eq
path_n_eq:
.weak path_n_ge
path_n_ge:
.weak path_n_gt
path_n_gt:
.weak path_n_le
path_n_le:
.weak path_n_lt
path_n_lt:
.weak path_npoints
path_npoints:
.weak path_open
path_open:
.weak path_out
path_out:
.weak path_poly
path_poly:
.weak path_recv
path_recv:
.weak path_send
path_send:
.weak path_sub_pt
path_sub_pt:
.weak pathkeys_contained_in
pathkeys_contained_in:
.weak pathkeys_count_contained_in
pathkeys_count_contained_in:
.weak pchomp
pchomp:
.weak pclose_check
pclose_check:
.weak per_MultiFuncCall
per_MultiFuncCall:
.weak percentile_cont_float8_final
percentile_cont_float8_final:
.weak percentile_cont_float8_multi_final
percentile_cont_float8_multi_final:
.weak percentile_cont_interval_final
percentile_cont_interval_final:
.weak percentile_cont_interval_multi_final
percentile_cont_interval_multi_final:
.weak percentile_disc_final
percentile_disc_final:
.weak percentile_disc_multi_final
percentile_disc_multi_final:
.weak performDeletion
performDeletion:
.weak performMultipleDeletions
performMultipleDeletions:
.weak perform_spin_delay
perform_spin_delay:
.weak pg_advisory_lock_int4
pg_advisory_lock_int4:
.weak pg_advisory_lock_int8
pg_advisory_lock_int8:
.weak pg_advisory_lock_shared_int4
pg_advisory_lock_shared_int4:
.weak pg_advisory_lock_shared_int8
pg_advisory_lock_shared_int8:
.weak pg_advisory_unlock_all
pg_advisory_unlock_all:
.weak pg_advisory_unlock_int4
pg_advisory_unlock_int4:
.weak pg_advisory_unlock_int8
pg_advisory_unlock_int8:
.weak pg_advisory_unlock_shared_int4
pg_advisory_unlock_shared_int4:
.weak pg_advisory_unlock_shared_int8
pg_advisory_unlock_shared_int8:
.weak pg_advisory_xact_lock_int4
pg_advisory_xact_lock_int4:
.weak pg_advisory_xact_lock_int8
pg_advisory_xact_lock_int8:
.weak pg_advisory_xact_lock_shared_int4
pg_advisory_xact_lock_shared_int4:
.weak pg_advisory_xact_lock_shared_int8
pg_advisory_xact_lock_shared_int8:
.weak pg_analyze_and_rewrite_fixedparams
pg_analyze_and_rewrite_fixedparams:
.weak pg_analyze_and_rewrite_varparams
pg_analyze_and_rewrite_varparams:
.weak pg_analyze_and_rewrite_withcb
pg_analyze_and_rewrite_withcb:
.weak pg_any_to_server
pg_any_to_server:
.weak pg_ascii_tolower
pg_ascii_tolower:
.weak pg_ascii_toupper
pg_ascii_toupper:
.weak pg_atomic_add_fetch_u32
pg_atomic_add_fetch_u32:
.weak pg_atomic_add_fetch_u32_impl
pg_atomic_add_fetch_u32_impl:
.weak pg_atomic_add_fetch_u64
pg_atomic_add_fetch_u64:
.weak pg_atomic_add_fetch_u64_impl
pg_atomic_add_fetch_u64_impl:
.weak pg_atomic_clear_flag
pg_atomic_clear_flag:
.weak pg_atomic_clear_flag_impl
pg_atomic_clear_flag_impl:
.weak pg_atomic_compare_exchange_u32
pg_atomic_compare_exchange_u32:
.weak pg_atomic_compare_exchange_u32_impl
pg_atomic_compare_exchange_u32_impl:
.weak pg_atomic_compare_exchange_u64
pg_atomic_compare_exchange_u64:
.weak pg_atomic_compare_exchange_u64_impl
pg_atomic_compare_exchange_u64_impl:
.weak pg_atomic_exchange_u32
pg_atomic_exchange_u32:
.weak pg_atomic_exchange_u32_impl
pg_atomic_exchange_u32_impl:
.weak pg_atomic_exchange_u64
pg_atomic_exchange_u64:
.weak pg_atomic_exchange_u64_impl
pg_atomic_exchange_u64_impl:
.weak pg_atomic_fetch_add_u32
pg_atomic_fetch_add_u32:
.weak pg_atomic_fetch_add_u32_impl
pg_atomic_fetch_add_u32_impl:
.weak pg_atomic_fetch_add_u64
pg_atomic_fetch_add_u64:
.weak pg_atomic_fetch_add_u64_impl
pg_atomic_fetch_add_u64_impl:
.weak pg_atomic_fetch_and_u32
pg_atomic_fetch_and_u32:
.weak pg_atomic_fetch_and_u32_impl
pg_atomic_fetch_and_u32_impl:
.weak pg_atomic_fetch_and_u64
pg_atomic_fetch_and_u64:
.weak pg_atomic_fetch_and_u64_impl
pg_atomic_fetch_and_u64_impl:
.weak pg_atomic_fetch_or_u32
pg_atomic_fetch_or_u32:
.weak pg_atomic_fetch_or_u32_impl
pg_atomic_fetch_or_u32_impl:
.weak pg_atomic_fetch_or_u64
pg_atomic_fetch_or_u64:
.weak pg_atomic_fetch_or_u64_impl
pg_atomic_fetch_or_u64_impl:
.weak pg_atomic_fetch_sub_u32
pg_atomic_fetch_sub_u32:
.weak pg_atomic_fetch_sub_u32_impl
pg_atomic_fetch_sub_u32_impl:
.weak pg_atomic_fetch_sub_u64
pg_atomic_fetch_sub_u64:
.weak pg_atomic_fetch_sub_u64_impl
pg_atomic_fetch_sub_u64_impl:
.weak pg_atomic_init_flag
pg_atomic_init_flag:
.weak pg_atomic_init_flag_impl
pg_atomic_init_flag_impl:
.weak pg_atomic_init_u32
pg_atomic_init_u32:
.weak pg_atomic_init_u32_impl
pg_atomic_init_u32_impl:
.weak pg_atomic_init_u64
pg_atomic_init_u64:
.weak pg_atomic_init_u64_impl
pg_atomic_init_u64_impl:
.weak pg_atomic_read_u32
pg_atomic_read_u32:
.weak pg_atomic_read_u32_impl
pg_atomic_read_u32_impl:
.weak pg_atomic_read_u64
pg_atomic_read_u64:
.weak pg_atomic_read_u64_impl
pg_atomic_read_u64_impl:
.weak pg_atomic_sub_fetch_u32
pg_atomic_sub_fetch_u32:
.weak pg_atomic_sub_fetch_u32_impl
pg_atomic_sub_fetch_u32_impl:
.weak pg_atomic_sub_fetch_u64
pg_atomic_sub_fetch_u64:
.weak pg_atomic_sub_fetch_u64_impl
pg_atomic_sub_fetch_u64_impl:
.weak pg_atomic_test_set_flag
pg_atomic_test_set_flag:
.weak pg_atomic_test_set_flag_impl
pg_atomic_test_set_flag_impl:
.weak pg_atomic_unlocked_test_flag
pg_atomic_unlocked_test_flag:
.weak pg_atomic_unlocked_test_flag_impl
pg_atomic_unlocked_test_flag_impl:
.weak pg_atomic_unlocked_write_u32
pg_atomic_unlocked_write_u32:
.weak pg_atomic_unlocked_write_u32_impl
pg_atomic_unlocked_write_u32_impl:
.weak pg_atomic_write_u32
pg_atomic_write_u32:
.weak pg_atomic_write_u32_impl
pg_atomic_write_u32_impl:
.weak pg_atomic_write_u64
pg_atomic_write_u64:
.weak pg_atomic_write_u64_impl
pg_atomic_write_u64_impl:
.weak pg_attribute_aclcheck
pg_attribute_aclcheck:
.weak pg_attribute_aclcheck_all
pg_attribute_aclcheck_all:
.weak pg_attribute_aclcheck_ext
pg_attribute_aclcheck_ext:
.weak pg_available_extension_versions
pg_available_extension_versions:
.weak pg_available_extensions
pg_available_extensions:
.weak pg_backend_pid
pg_backend_pid:
.weak pg_backup_start
pg_backup_start:
.weak pg_backup_stop
pg_backup_stop:
.weak pg_bind_textdomain_codeset
pg_bind_textdomain_codeset:
.weak pg_bindtextdomain
pg_bindtextdomain:
.weak pg_blocking_pids
pg_blocking_pids:
.weak pg_cancel_backend
pg_cancel_backend:
.weak pg_ceil_log2_32
pg_ceil_log2_32:
.weak pg_ceil_log2_64
pg_ceil_log2_64:
.weak pg_char_and_wchar_strcmp
pg_char_and_wchar_strcmp:
.weak pg_char_and_wchar_strncmp
pg_char_and_wchar_strncmp:
.weak pg_char_to_encoding
pg_char_to_encoding:
.weak pg_check_dir
pg_check_dir:
.weak pg_class_aclcheck
pg_class_aclcheck:
.weak pg_class_aclcheck_ext
pg_class_aclcheck_ext:
.weak pg_class_aclmask
pg_class_aclmask:
.weak pg_client_encoding
pg_client_encoding:
.weak pg_client_to_server
pg_client_to_server:
.weak pg_clock_gettime_ns
pg_clock_gettime_ns:
.weak pg_collation_actual_version
pg_collation_actual_version:
.weak pg_collation_for
pg_collation_for:
.weak pg_collation_is_visible
pg_collation_is_visible:
.weak pg_column_compression
pg_column_compression:
.weak pg_column_is_updatable
pg_column_is_updatable:
.weak pg_column_size
pg_column_size:
.weak pg_comp_crc32c_sb8
pg_comp_crc32c_sb8:
.weak pg_comp_crc32c_sse42
pg_comp_crc32c_sse42:
.weak pg_conf_load_time
pg_conf_load_time:
.weak pg_config
pg_config:
.weak pg_control_checkpoint
pg_control_checkpoint:
.weak pg_control_init
pg_control_init:
.weak pg_control_recovery
pg_control_recovery:
.weak pg_control_system
pg_control_system:
.weak pg_conversion_is_visible
pg_conversion_is_visible:
.weak pg_convert
pg_convert:
.weak pg_convert_from
pg_convert_from:
.weak pg_convert_to
pg_convert_to:
.weak pg_copy_logical_replication_slot_a
pg_copy_logical_replication_slot_a:
.weak pg_copy_logical_replication_slot_b
pg_copy_logical_replication_slot_b:
.weak pg_copy_logical_replication_slot_c
pg_copy_logical_replication_slot_c:
.weak pg_copy_physical_replication_slot_a
pg_copy_physical_replication_slot_a:
.weak pg_copy_physical_replication_slot_b
pg_copy_physical_replication_slot_b:
.weak pg_create_logical_replication_slot
pg_create_logical_replication_slot:
.weak pg_create_physical_replication_slot
pg_create_physical_replication_slot:
.weak pg_create_restore_point
pg_create_restore_point:
.weak pg_current_logfile
pg_current_logfile:
.weak pg_current_logfile_1arg
pg_current_logfile_1arg:
.weak pg_current_snapshot
pg_current_snapshot:
.weak pg_current_wal_flush_lsn
pg_current_wal_flush_lsn:
.weak pg_current_wal_insert_lsn
pg_current_wal_insert_lsn:
.weak pg_current_wal_lsn
pg_current_wal_lsn:
.weak pg_current_xact_id
pg_current_xact_id:
.weak pg_current_xact_id_if_assigned
pg_current_xact_id_if_assigned:
.weak pg_cursor
pg_cursor:
.weak pg_database_collation_actual_version
pg_database_collation_actual_version:
.weak pg_database_encoding_character_incrementer
pg_database_encoding_character_incrementer:
.weak pg_database_encoding_max_length
pg_database_encoding_max_length:
.weak pg_database_size_name
pg_database_size_name:
.weak pg_database_size_oid
pg_database_size_oid:
.weak pg_ddl_command_in
pg_ddl_command_in:
.weak pg_ddl_command_out
pg_ddl_command_out:
.weak pg_ddl_command_recv
pg_ddl_command_recv:
.weak pg_ddl_command_send
pg_ddl_command_send:
.weak pg_dependencies_in
pg_dependencies_in:
.weak pg_dependencies_out
pg_dependencies_out:
.weak pg_dependencies_recv
pg_dependencies_recv:
.weak pg_dependencies_send
pg_dependencies_send:
.weak pg_describe_object
pg_describe_object:
.weak pg_detoast_datum_slice
pg_detoast_datum_slice:
.weak pg_do_encoding_conversion
pg_do_encoding_conversion:
.weak pg_do_encoding_conversion_buf
pg_do_encoding_conversion_buf:
.weak pg_drop_replication_slot
pg_drop_replication_slot:
.weak pg_dsplen
pg_dsplen:
.weak pg_encoding_dsplen
pg_encoding_dsplen:
.weak pg_encoding_max_length
pg_encoding_max_length:
.weak pg_encoding_max_length_sql
pg_encoding_max_length_sql:
.weak pg_encoding_mb2wchar_with_len
pg_encoding_mb2wchar_with_len:
.weak pg_encoding_mbcliplen
pg_encoding_mbcliplen:
.weak pg_encoding_mblen
pg_encoding_mblen:
.weak pg_encoding_mblen_bounded
pg_encoding_mblen_bounded:
.weak pg_encoding_mblen_or_incomplete
pg_encoding_mblen_or_incomplete:
.weak pg_encoding_set_invalid
pg_encoding_set_invalid:
.weak pg_encoding_to_char
pg_encoding_to_char:
.weak pg_encoding_verifymbchar
pg_encoding_verifymbchar:
.weak pg_encoding_verifymbstr
pg_encoding_verifymbstr:
.weak pg_encoding_wchar2mb_with_len
pg_encoding_wchar2mb_with_len:
.weak pg_event_trigger_ddl_commands
pg_event_trigger_ddl_commands:
.weak pg_event_trigger_dropped_objects
pg_event_trigger_dropped_objects:
.weak pg_event_trigger_table_rewrite_oid
pg_event_trigger_table_rewrite_oid:
.weak pg_event_trigger_table_rewrite_reason
pg_event_trigger_table_rewrite_reason:
.weak pg_export_snapshot
pg_export_snapshot:
.weak pg_extension_config_dump
pg_extension_config_dump:
.weak pg_extension_update_paths
pg_extension_update_paths:
.weak pg_fdatasync
pg_fdatasync:
.weak pg_filenode_relation
pg_filenode_relation:
.weak pg_flush_data
pg_flush_data:
.weak pg_fprintf
pg_fprintf:
.weak pg_fsync
pg_fsync:
.weak pg_fsync_no_writethrough
pg_fsync_no_writethrough:
.weak pg_fsync_writethrough
pg_fsync_writethrough:
.weak pg_function_is_visible
pg_function_is_visible:
.weak pg_get_backend_memory_contexts
pg_get_backend_memory_contexts:
.weak pg_get_catalog_foreign_keys
pg_get_catalog_foreign_keys:
.weak pg_get_client_encoding
pg_get_client_encoding:
.weak pg_get_client_encoding_name
pg_get_client_encoding_name:
.weak pg_get_constraintdef
pg_get_constraintdef:
.weak pg_get_constraintdef_command
pg_get_constraintdef_command:
.weak pg_get_constraintdef_ext
pg_get_constraintdef_ext:
.weak pg_get_encoding_from_locale
pg_get_encoding_from_locale:
.weak pg_get_expr
pg_get_expr:
.weak pg_get_expr_ext
pg_get_expr_ext:
.weak pg_get_function_arg_default
pg_get_function_arg_default:
.weak pg_get_function_arguments
pg_get_function_arguments:
.weak pg_get_function_identity_arguments
pg_get_function_identity_arguments:
.weak pg_get_function_result
pg_get_function_result:
.weak pg_get_function_sqlbody
pg_get_function_sqlbody:
.weak pg_get_functiondef
pg_get_functiondef:
.weak pg_get_indexdef
pg_get_indexdef:
.weak pg_get_indexdef_columns
pg_get_indexdef_columns:
.weak pg_get_indexdef_columns_extended
pg_get_indexdef_columns_extended:
.weak pg_get_indexdef_ext
pg_get_indexdef_ext:
.weak pg_get_indexdef_string
pg_get_indexdef_string:
.weak pg_get_keywords
pg_get_keywords:
.weak pg_get_multixact_members
pg_get_multixact_members:
.weak pg_get_object_address
pg_get_object_address:
.weak pg_get_partconstrdef_string
pg_get_partconstrdef_string:
.weak pg_get_partition_constraintdef
pg_get_partition_constraintdef:
.weak pg_get_partkeydef
pg_get_partkeydef:
.weak pg_get_partkeydef_columns
pg_get_partkeydef_columns:
.weak pg_get_publication_tables
pg_get_publication_tables:
.weak pg_get_querydef
pg_get_querydef:
.weak pg_get_replica_identity_index
pg_get_replica_identity_index:
.weak pg_get_replication_slots
pg_get_replication_slots:
.weak pg_get_ruledef
pg_get_ruledef:
.weak pg_get_ruledef_ext
pg_get_ruledef_ext:
.weak pg_get_serial_sequence
pg_get_serial_sequence:
.weak pg_get_shmem_allocations
pg_get_shmem_allocations:
.weak pg_get_statisticsobjdef
pg_get_statisticsobjdef:
.weak pg_get_statisticsobjdef_columns
pg_get_statisticsobjdef_columns:
.weak pg_get_statisticsobjdef_expressions
pg_get_statisticsobjdef_expressions:
.weak pg_get_statisticsobjdef_string
pg_get_statisticsobjdef_string:
.weak pg_get_timezone_name
pg_get_timezone_name:
.weak pg_get_timezone_offset
pg_get_timezone_offset:
.weak pg_get_triggerdef
pg_get_triggerdef:
.weak pg_get_triggerdef_ext
pg_get_triggerdef_ext:
.weak pg_get_user_home_dir
pg_get_user_home_dir:
.weak pg_get_user_name
pg_get_user_name:
.weak pg_get_userbyid
pg_get_userbyid:
.weak pg_get_viewdef
pg_get_viewdef:
.weak pg_get_viewdef_ext
pg_get_viewdef_ext:
.weak pg_get_viewdef_name
pg_get_viewdef_name:
.weak pg_get_viewdef_name_ext
pg_get_viewdef_name_ext:
.weak pg_get_viewdef_wrap
pg_get_viewdef_wrap:
.weak pg_get_wal_replay_pause_state
pg_get_wal_replay_pause_state:
.weak pg_get_wal_resource_managers
pg_get_wal_resource_managers:
.weak pg_gmtime
pg_gmtime:
.weak pg_has_role_id
pg_has_role_id:
.weak pg_has_role_id_id
pg_has_role_id_id:
.weak pg_has_role_id_name
pg_has_role_id_name:
.weak pg_has_role_name
pg_has_role_name:
.weak pg_has_role_name_id
pg_has_role_name_id:
.weak pg_has_role_name_name
pg_has_role_name_name:
.weak pg_hba_file_rules
pg_hba_file_rules:
.weak pg_hypot
pg_hypot:
.weak pg_ident_file_mappings
pg_ident_file_mappings:
.weak pg_identify_object
pg_identify_object:
.weak pg_identify_object_as_address
pg_identify_object_as_address:
.weak pg_import_system_collations
pg_import_system_collations:
.weak pg_index_column_has_property
pg_index_column_has_property:
.weak pg_index_has_property
pg_index_has_property:
.weak pg_indexam_has_property
pg_indexam_has_property:
.weak pg_indexam_progress_phasename
pg_indexam_progress_phasename:
.weak pg_indexes_size
pg_indexes_size:
.weak pg_inet_cidr_ntop
pg_inet_cidr_ntop:
.weak pg_inet_net_ntop
pg_inet_net_ntop:
.weak pg_inet_net_pton
pg_inet_net_pton:
.weak pg_input_error_info
pg_input_error_info:
.weak pg_input_is_valid
pg_input_is_valid:
.weak pg_interpret_timezone_abbrev
pg_interpret_timezone_abbrev:
.weak pg_is_in_recovery
pg_is_in_recovery:
.weak pg_is_other_temp_schema
pg_is_other_temp_schema:
.weak pg_is_wal_replay_paused
pg_is_wal_replay_paused:
.weak pg_isolation_test_session_is_blocked
pg_isolation_test_session_is_blocked:
.weak pg_itoa
pg_itoa:
.weak pg_jit_available
pg_jit_available:
.weak pg_largeobject_aclcheck_snapshot
pg_largeobject_aclcheck_snapshot:
.weak pg_last_committed_xact
pg_last_committed_xact:
.weak pg_last_wal_receive_lsn
pg_last_wal_receive_lsn:
.weak pg_last_wal_replay_lsn
pg_last_wal_replay_lsn:
.weak pg_last_xact_replay_timestamp
pg_last_xact_replay_timestamp:
.weak pg_leftmost_one_pos32
pg_leftmost_one_pos32:
.weak pg_leftmost_one_pos64
pg_leftmost_one_pos64:
.weak pg_listening_channels
pg_listening_channels:
.weak pg_lltoa
pg_lltoa:
.weak pg_localtime
pg_localtime:
.weak pg_lock_status
pg_lock_status:
.weak pg_log_backend_memory_contexts
pg_log_backend_memory_contexts:
.weak pg_log_standby_snapshot
pg_log_standby_snapshot:
.weak pg_logical_emit_message_bytea
pg_logical_emit_message_bytea:
.weak pg_logical_emit_message_text
pg_logical_emit_message_text:
.weak pg_logical_slot_get_binary_changes
pg_logical_slot_get_binary_changes:
.weak pg_logical_slot_get_changes
pg_logical_slot_get_changes:
.weak pg_logical_slot_peek_binary_changes
pg_logical_slot_peek_binary_changes:
.weak pg_logical_slot_peek_changes
pg_logical_slot_peek_changes:
.weak pg_ls_archive_statusdir
pg_ls_archive_statusdir:
.weak pg_ls_dir
pg_ls_dir:
.weak pg_ls_dir_1arg
pg_ls_dir_1arg:
.weak pg_ls_logdir
pg_ls_logdir:
.weak pg_ls_logicalmapdir
pg_ls_logicalmapdir:
.weak pg_ls_logicalsnapdir
pg_ls_logicalsnapdir:
.weak pg_ls_replslotdir
pg_ls_replslotdir:
.weak pg_ls_tmpdir_1arg
pg_ls_tmpdir_1arg:
.weak pg_ls_tmpdir_noargs
pg_ls_tmpdir_noargs:
.weak pg_ls_waldir
pg_ls_waldir:
.weak pg_lsn_cmp
pg_lsn_cmp:
.weak pg_lsn_eq
pg_lsn_eq:
.weak pg_lsn_ge
pg_lsn_ge:
.weak pg_lsn_gt
pg_lsn_gt:
.weak pg_lsn_hash
pg_lsn_hash:
.weak pg_lsn_hash_extended
pg_lsn_hash_extended:
.weak pg_lsn_in
pg_lsn_in:
.weak pg_lsn_larger
pg_lsn_larger:
.weak pg_lsn_le
pg_lsn_le:
.weak pg_lsn_lt
pg_lsn_lt:
.weak pg_lsn_mi
pg_lsn_mi:
.weak pg_lsn_mii
pg_lsn_mii:
.weak pg_lsn_ne
pg_lsn_ne:
.weak pg_lsn_out
pg_lsn_out:
.weak pg_lsn_pli
pg_lsn_pli:
.weak pg_lsn_recv
pg_lsn_recv:
.weak pg_lsn_send
pg_lsn_send:
.weak pg_lsn_smaller
pg_lsn_smaller:
.weak pg_ltoa
pg_ltoa:
.weak pg_mb2wchar
pg_mb2wchar:
.weak pg_mb2wchar_with_len
pg_mb2wchar_with_len:
.weak pg_mbcharcliplen
pg_mbcharcliplen:
.weak pg_mbcliplen
pg_mbcliplen:
.weak pg_mblen
pg_mblen:
.weak pg_mblen_cstr
pg_mblen_cstr:
.weak pg_mblen_range
pg_mblen_range:
.weak pg_mblen_unbounded
pg_mblen_unbounded:
.weak pg_mblen_with_len
pg_mblen_with_len:
.weak pg_mbstrlen
pg_mbstrlen:
.weak pg_mbstrlen_with_len
pg_mbstrlen_with_len:
.weak pg_mcv_list_in
pg_mcv_list_in:
.weak pg_mcv_list_out
pg_mcv_list_out:
.weak pg_mcv_list_recv
pg_mcv_list_recv:
.weak pg_mcv_list_send
pg_mcv_list_send:
.weak pg_mkdir_p
pg_mkdir_p:
.weak pg_mule_mblen
pg_mule_mblen:
.weak pg_my_temp_schema
pg_my_temp_schema:
.weak pg_ndistinct_in
pg_ndistinct_in:
.weak pg_ndistinct_out
pg_ndistinct_out:
.weak pg_ndistinct_recv
pg_ndistinct_recv:
.weak pg_ndistinct_send
pg_ndistinct_send:
.weak pg_next_dst_boundary
pg_next_dst_boundary:
.weak pg_nextoid
pg_nextoid:
.weak pg_nextpower2_32
pg_nextpower2_32:
.weak pg_nextpower2_64
pg_nextpower2_64:
.weak pg_node_tree_in
pg_node_tree_in:
.weak pg_node_tree_out
pg_node_tree_out:
.weak pg_node_tree_recv
pg_node_tree_recv:
.weak pg_node_tree_send
pg_node_tree_send:
.weak pg_notification_queue_usage
pg_notification_queue_usage:
.weak pg_notify
pg_notify:
.weak pg_num_nonnulls
pg_num_nonnulls:
.weak pg_num_nulls
pg_num_nulls:
.weak pg_opclass_is_visible
pg_opclass_is_visible:
.weak pg_operator_is_visible
pg_operator_is_visible:
.weak pg_opfamily_is_visible
pg_opfamily_is_visible:
.weak pg_options_to_table
pg_options_to_table:
.weak pg_parameter_aclcheck
pg_parameter_aclcheck:
.weak pg_parse_query
pg_parse_query:
.weak pg_partition_ancestors
pg_partition_ancestors:
.weak pg_partition_root
pg_partition_root:
.weak pg_partition_tree
pg_partition_tree:
.weak pg_plan_queries
pg_plan_queries:
.weak pg_plan_query
pg_plan_query:
.weak pg_popcount
pg_popcount:
.weak pg_postmaster_start_time
pg_postmaster_start_time:
.weak pg_prepared_statement
pg_prepared_statement:
.weak pg_prepared_xact
pg_prepared_xact:
.weak pg_prevpower2_32
pg_prevpower2_32:
.weak pg_prevpower2_64
pg_prevpower2_64:
.weak pg_printf
pg_printf:
.weak pg_prng_bool
pg_prng_bool:
.weak pg_prng_double
pg_prng_double:
.weak pg_prng_double_normal
pg_prng_double_normal:
.weak pg_prng_fseed
pg_prng_fseed:
.weak pg_prng_int32
pg_prng_int32:
.weak pg_prng_int32p
pg_prng_int32p:
.weak pg_prng_int64
pg_prng_int64:
.weak pg_prng_int64p
pg_prng_int64p:
.weak pg_prng_seed
pg_prng_seed:
.weak pg_prng_seed_check
pg_prng_seed_check:
.weak pg_prng_uint32
pg_prng_uint32:
.weak pg_prng_uint64
pg_prng_uint64:
.weak pg_prng_uint64_range
pg_prng_uint64_range:
.weak pg_promote
pg_promote:
.weak pg_qsort
pg_qsort:
.weak pg_qsort_strcmp
pg_qsort_strcmp:
.weak pg_read_binary_file_all
pg_read_binary_file_all:
.weak pg_read_binary_file_all_missing
pg_read_binary_file_all_missing:
.weak pg_read_binary_file_off_len
pg_read_binary_file_off_len:
.weak pg_read_binary_file_off_len_missing
pg_read_binary_file_off_len_missing:
.weak pg_read_file
pg_read_file:
.weak pg_read_file_all
pg_read_file_all:
.weak pg_read_file_all_missing
pg_read_file_all_missing:
.weak pg_read_file_off_len
pg_read_file_off_len:
.weak pg_read_file_off_len_missing
pg_read_file_off_len_missing:
.weak pg_relation_filenode
pg_relation_filenode:
.weak pg_relation_filepath
pg_relation_filepath:
.weak pg_relation_is_publishable
pg_relation_is_publishable:
.weak pg_relation_is_updatable
pg_relation_is_updatable:
.weak pg_relation_size
pg_relation_size:
.weak pg_reload_conf
pg_reload_conf:
.weak pg_replication_origin_advance
pg_replication_origin_advance:
.weak pg_replication_origin_create
pg_replication_origin_create:
.weak pg_replication_origin_drop
pg_replication_origin_drop:
.weak pg_replication_origin_oid
pg_replication_origin_oid:
.weak pg_replication_origin_progress
pg_replication_origin_progress:
.weak pg_replication_origin_session_is_setup
pg_replication_origin_session_is_setup:
.weak pg_replication_origin_session_progress
pg_replication_origin_session_progress:
.weak pg_replication_origin_session_reset
pg_replication_origin_session_reset:
.weak pg_replication_origin_session_setup
pg_replication_origin_session_setup:
.weak pg_replication_origin_xact_reset
pg_replication_origin_xact_reset:
.weak pg_replication_origin_xact_setup
pg_replication_origin_xact_setup:
.weak pg_replication_slot_advance
pg_replication_slot_advance:
.weak pg_rewrite_query
pg_rewrite_query:
.weak pg_rightmost_one_pos32
pg_rightmost_one_pos32:
.weak pg_rightmost_one_pos64
pg_rightmost_one_pos64:
.weak pg_rotate_left32
pg_rotate_left32:
.weak pg_rotate_logfile
pg_rotate_logfile:
.weak pg_rotate_logfile_v2
pg_rotate_logfile_v2:
.weak pg_rotate_right32
pg_rotate_right32:
.weak pg_safe_snapshot_blocking_pids
pg_safe_snapshot_blocking_pids:
.weak pg_sequence_last_value
pg_sequence_last_value:
.weak pg_sequence_parameters
pg_sequence_parameters:
.weak pg_server_to_any
pg_server_to_any:
.weak pg_server_to_client
pg_server_to_client:
.weak pg_set_block
pg_set_block:
.weak pg_set_noblock
pg_set_noblock:
.weak pg_settings_get_flags
pg_settings_get_flags:
.weak pg_show_replication_origin_status
pg_show_replication_origin_status:
.weak pg_size_bytes
pg_size_bytes:
.weak pg_size_pretty
pg_size_pretty:
.weak pg_size_pretty_numeric
pg_size_pretty_numeric:
.weak pg_sleep
pg_sleep:
.weak pg_snapshot_in
pg_snapshot_in:
.weak pg_snapshot_out
pg_snapshot_out:
.weak pg_snapshot_recv
pg_snapshot_recv:
.weak pg_snapshot_send
pg_snapshot_send:
.weak pg_snapshot_xip
pg_snapshot_xip:
.weak pg_snapshot_xmax
pg_snapshot_xmax:
.weak pg_snapshot_xmin
pg_snapshot_xmin:
.weak pg_snprintf
pg_snprintf:
.weak pg_spin_delay_impl
pg_spin_delay_impl:
.weak pg_split_opts
pg_split_opts:
.weak pg_split_walfile_name
pg_split_walfile_name:
.weak pg_sprintf
pg_sprintf:
.weak pg_stat_clear_snapshot
pg_stat_clear_snapshot:
.weak pg_stat_file
pg_stat_file:
.weak pg_stat_file_1arg
pg_stat_file_1arg:
.weak pg_stat_force_next_flush
pg_stat_force_next_flush:
.weak pg_stat_get_activity
pg_stat_get_activity:
.weak pg_stat_get_analyze_count
pg_stat_get_analyze_count:
.weak pg_stat_get_archiver
pg_stat_get_archiver:
.weak pg_stat_get_autoanalyze_count
pg_stat_get_autoanalyze_count:
.weak pg_stat_get_autovacuum_count
pg_stat_get_autovacuum_count:
.weak pg_stat_get_backend_activity
pg_stat_get_backend_activity:
.weak pg_stat_get_backend_activity_start
pg_stat_get_backend_activity_start:
.weak pg_stat_get_backend_client_addr
pg_stat_get_backend_client_addr:
.weak pg_stat_get_backend_client_port
pg_stat_get_backend_client_port:
.weak pg_stat_get_backend_dbid
pg_stat_get_backend_dbid:
.weak pg_stat_get_backend_idset
pg_stat_get_backend_idset:
.weak pg_stat_get_backend_pid
pg_stat_get_backend_pid:
.weak pg_stat_get_backend_start
pg_stat_get_backend_start:
.weak pg_stat_get_backend_subxact
pg_stat_get_backend_subxact:
.weak pg_stat_get_backend_userid
pg_stat_get_backend_userid:
.weak pg_stat_get_backend_wait_event
pg_stat_get_backend_wait_event:
.weak pg_stat_get_backend_wait_event_type
pg_stat_get_backend_wait_event_type:
.weak pg_stat_get_backend_xact_start
pg_stat_get_backend_xact_start:
.weak pg_stat_get_bgwriter_buf_written_checkpoints
pg_stat_get_bgwriter_buf_written_checkpoints:
.weak pg_stat_get_bgwriter_buf_written_clean
pg_stat_get_bgwriter_buf_written_clean:
.weak pg_stat_get_bgwriter_maxwritten_clean
pg_stat_get_bgwriter_maxwritten_clean:
.weak pg_stat_get_bgwriter_requested_checkpoints
pg_stat_get_bgwriter_requested_checkpoints:
.weak pg_stat_get_bgwriter_stat_reset_time
pg_stat_get_bgwriter_stat_reset_time:
.weak pg_stat_get_bgwriter_timed_checkpoints
pg_stat_get_bgwriter_timed_checkpoints:
.weak pg_stat_get_blocks_fetched
pg_stat_get_blocks_fetched:
.weak pg_stat_get_blocks_hit
pg_stat_get_blocks_hit:
.weak pg_stat_get_buf_alloc
pg_stat_get_buf_alloc:
.weak pg_stat_get_buf_fsync_backend
pg_stat_get_buf_fsync_backend:
.weak pg_stat_get_buf_written_backend
pg_stat_get_buf_written_backend:
.weak pg_stat_get_checkpoint_sync_time
pg_stat_get_checkpoint_sync_time:
.weak pg_stat_get_checkpoint_write_time
pg_stat_get_checkpoint_write_time:
.weak pg_stat_get_db_active_time
pg_stat_get_db_active_time:
.weak pg_stat_get_db_blk_read_time
pg_stat_get_db_blk_read_time:
.weak pg_stat_get_db_blk_write_time
pg_stat_get_db_blk_write_time:
.weak pg_stat_get_db_blocks_fetched
pg_stat_get_db_blocks_fetched:
.weak pg_stat_get_db_blocks_hit
pg_stat_get_db_blocks_hit:
.weak pg_stat_get_db_checksum_failures
pg_stat_get_db_checksum_failures:
.weak pg_stat_get_db_checksum_last_failure
pg_stat_get_db_checksum_last_failure:
.weak pg_stat_get_db_conflict_all
pg_stat_get_db_conflict_all:
.weak pg_stat_get_db_conflict_bufferpin
pg_stat_get_db_conflict_bufferpin:
.weak pg_stat_get_db_conflict_lock
pg_stat_get_db_conflict_lock:
.weak pg_stat_get_db_conflict_logicalslot
pg_stat_get_db_conflict_logicalslot:
.weak pg_stat_get_db_conflict_snapshot
pg_stat_get_db_conflict_snapshot:
.weak pg_stat_get_db_conflict_startup_deadlock
pg_stat_get_db_conflict_startup_deadlock:
.weak pg_stat_get_db_conflict_tablespace
pg_stat_get_db_conflict_tablespace:
.weak pg_stat_get_db_deadlocks
pg_stat_get_db_deadlocks:
.weak pg_stat_get_db_idle_in_transaction_time
pg_stat_get_db_idle_in_transaction_time:
.weak pg_stat_get_db_numbackends
pg_stat_get_db_numbackends:
.weak pg_stat_get_db_session_time
pg_stat_get_db_session_time:
.weak pg_stat_get_db_sessions
pg_stat_get_db_sessions:
.weak pg_stat_get_db_sessions_abandoned
pg_stat_get_db_sessions_abandoned:
.weak pg_stat_get_db_sessions_fatal
pg_stat_get_db_sessions_fatal:
.weak pg_stat_get_db_sessions_killed
pg_stat_get_db_sessions_killed:
.weak pg_stat_get_db_stat_reset_time
pg_stat_get_db_stat_reset_time:
.weak pg_stat_get_db_temp_bytes
pg_stat_get_db_temp_bytes:
.weak pg_stat_get_db_temp_files
pg_stat_get_db_temp_files:
.weak pg_stat_get_db_tuples_deleted
pg_stat_get_db_tuples_deleted:
.weak pg_stat_get_db_tuples_fetched
pg_stat_get_db_tuples_fetched:
.weak pg_stat_get_db_tuples_inserted
pg_stat_get_db_tuples_inserted:
.weak pg_stat_get_db_tuples_returned
pg_stat_get_db_tuples_returned:
.weak pg_stat_get_db_tuples_updated
pg_stat_get_db_tuples_updated:
.weak pg_stat_get_db_xact_commit
pg_stat_get_db_xact_commit:
.weak pg_stat_get_db_xact_rollback
pg_stat_get_db_xact_rollback:
.weak pg_stat_get_dead_tuples
pg_stat_get_dead_tuples:
.weak pg_stat_get_function_calls
pg_stat_get_function_calls:
.weak pg_stat_get_function_self_time
pg_stat_get_function_self_time:
.weak pg_stat_get_function_total_time
pg_stat_get_function_total_time:
.weak pg_stat_get_ins_since_vacuum
pg_stat_get_ins_since_vacuum:
.weak pg_stat_get_io
pg_stat_get_io:
.weak pg_stat_get_last_analyze_time
pg_stat_get_last_analyze_time:
.weak pg_stat_get_last_autoanalyze_time
pg_stat_get_last_autoanalyze_time:
.weak pg_stat_get_last_autovacuum_time
pg_stat_get_last_autovacuum_time:
.weak pg_stat_get_last_vacuum_time
pg_stat_get_last_vacuum_time:
.weak pg_stat_get_lastscan
pg_stat_get_lastscan:
.weak pg_stat_get_live_tuples
pg_stat_get_live_tuples:
.weak pg_stat_get_mod_since_analyze
pg_stat_get_mod_since_analyze:
.weak pg_stat_get_numscans
pg_stat_get_numscans:
.weak pg_stat_get_progress_info
pg_stat_get_progress_info:
.weak pg_stat_get_recovery_prefetch
pg_stat_get_recovery_prefetch:
.weak pg_stat_get_replication_slot
pg_stat_get_replication_slot:
.weak pg_stat_get_slru
pg_stat_get_slru:
.weak pg_stat_get_snapshot_timestamp
pg_stat_get_snapshot_timestamp:
.weak pg_stat_get_subscription
pg_stat_get_subscription:
.weak pg_stat_get_subscription_stats
pg_stat_get_subscription_stats:
.weak pg_stat_get_tuples_deleted
pg_stat_get_tuples_deleted:
.weak pg_stat_get_tuples_fetched
pg_stat_get_tuples_fetched:
.weak pg_stat_get_tuples_hot_updated
pg_stat_get_tuples_hot_updated:
.weak pg_stat_get_tuples_inserted
pg_stat_get_tuples_inserted:
.weak pg_stat_get_tuples_newpage_updated
pg_stat_get_tuples_newpage_updated:
.weak pg_stat_get_tuples_returned
pg_stat_get_tuples_returned:
.weak pg_stat_get_tuples_updated
pg_stat_get_tuples_updated:
.weak pg_stat_get_vacuum_count
pg_stat_get_vacuum_count:
.weak pg_stat_get_wal
pg_stat_get_wal:
.weak pg_stat_get_wal_receiver
pg_stat_get_wal_receiver:
.weak pg_stat_get_wal_senders
pg_stat_get_wal_senders:
.weak pg_stat_get_xact_blocks_fetched
pg_stat_get_xact_blocks_fetched:
.weak pg_stat_get_xact_blocks_hit
pg_stat_get_xact_blocks_hit:
.weak pg_stat_get_xact_function_calls
pg_stat_get_xact_function_calls:
.weak pg_stat_get_xact_function_self_time
pg_stat_get_xact_function_self_time:
.weak pg_stat_get_xact_function_total_time
pg_stat_get_xact_function_total_time:
.weak pg_stat_get_xact_numscans
pg_stat_get_xact_numscans:
.weak pg_stat_get_xact_tuples_deleted
pg_stat_get_xact_tuples_deleted:
.weak pg_stat_get_xact_tuples_fetched
pg_stat_get_xact_tuples_fetched:
.weak pg_stat_get_xact_tuples_hot_updated
pg_stat_get_xact_tuples_hot_updated:
.weak pg_stat_get_xact_tuples_inserted
pg_stat_get_xact_tuples_inserted:
.weak pg_stat_get_xact_tuples_newpage_updated
pg_stat_get_xact_tuples_newpage_updated:
.weak pg_stat_get_xact_tuples_returned
pg_stat_get_xact_tuples_returned:
.weak pg_stat_get_xact_tuples_updated
pg_stat_get_xact_tuples_updated:
.weak pg_stat_have_stats
pg_stat_have_stats:
.weak pg_stat_reset
pg_stat_reset:
.weak pg_stat_reset_replication_slot
pg_stat_reset_replication_slot:
.weak pg_stat_reset_shared
pg_stat_reset_shared:
.weak pg_stat_reset_single_function_counters
pg_stat_reset_single_function_counters:
.weak pg_stat_reset_single_table_counters
pg_stat_reset_single_table_counters:
.weak pg_stat_reset_slru
pg_stat_reset_slru:
.weak pg_stat_reset_subscription_stats
pg_stat_reset_subscription_stats:
.weak pg_statistics_obj_is_visible
pg_statistics_obj_is_visible:
.weak pg_stats_ext_mcvlist_items
pg_stats_ext_mcvlist_items:
.weak pg_stop_making_pinned_objects
pg_stop_making_pinned_objects:
.weak pg_strcasecmp
pg_strcasecmp:
.weak pg_strerror
pg_strerror:
.weak pg_strerror_r
pg_strerror_r:
.weak pg_strfromd
pg_strfromd:
.weak pg_strftime
pg_strftime:
.weak pg_strncasecmp
pg_strncasecmp:
.weak pg_strong_random
pg_strong_random:
.weak pg_strong_random_init
pg_strong_random_init:
.weak pg_strsignal
pg_strsignal:
.weak pg_strtoint16
pg_strtoint16:
.weak pg_strtoint16_safe
pg_strtoint16_safe:
.weak pg_strtoint32
pg_strtoint32:
.weak pg_strtoint32_safe
pg_strtoint32_safe:
.weak pg_strtoint64
pg_strtoint64:
.weak pg_strtoint64_safe
pg_strtoint64_safe:
.weak pg_switch_wal
pg_switch_wal:
.weak pg_table_is_visible
pg_table_is_visible:
.weak pg_table_size
pg_table_size:
.weak pg_tablespace_databases
pg_tablespace_databases:
.weak pg_tablespace_location
pg_tablespace_location:
.weak pg_tablespace_size_name
pg_tablespace_size_name:
.weak pg_tablespace_size_oid
pg_tablespace_size_oid:
.weak pg_terminate_backend
pg_terminate_backend:
.weak pg_timezone_abbrevs
pg_timezone_abbrevs:
.weak pg_timezone_initialize
pg_timezone_initialize:
.weak pg_timezone_names
pg_timezone_names:
.weak pg_tolower
pg_tolower:
.weak pg_total_relation_size
pg_total_relation_size:
.weak pg_toupper
pg_toupper:
.weak pg_trigger_depth
pg_trigger_depth:
.weak pg_truncate
pg_truncate:
.weak pg_try_advisory_lock_int4
pg_try_advisory_lock_int4:
.weak pg_try_advisory_lock_int8
pg_try_advisory_lock_int8:
.weak pg_try_advisory_lock_shared_int4
pg_try_advisory_lock_shared_int4:
.weak pg_try_advisory_lock_shared_int8
pg_try_advisory_lock_shared_int8:
.weak pg_try_advisory_xact_lock_int4
pg_try_advisory_xact_lock_int4:
.weak pg_try_advisory_xact_lock_int8
pg_try_advisory_xact_lock_int8:
.weak pg_try_advisory_xact_lock_shared_int4
pg_try_advisory_xact_lock_shared_int4:
.weak pg_try_advisory_xact_lock_shared_int8
pg_try_advisory_xact_lock_shared_int8:
.weak pg_ts_config_is_visible
pg_ts_config_is_visible:
.weak pg_ts_dict_is_visible
pg_ts_dict_is_visible:
.weak pg_ts_parser_is_visible
pg_ts_parser_is_visible:
.weak pg_ts_template_is_visible
pg_ts_template_is_visible:
.weak pg_type_is_visible
pg_type_is_visible:
.weak pg_typeof
pg_typeof:
.weak pg_tz_acceptable
pg_tz_acceptable:
.weak pg_tzenumerate_end
pg_tzenumerate_end:
.weak pg_tzenumerate_next
pg_tzenumerate_next:
.weak pg_tzenumerate_start
pg_tzenumerate_start:
.weak pg_tzset
pg_tzset:
.weak pg_tzset_offset
pg_tzset_offset:
.weak pg_ulltoa_n
pg_ulltoa_n:
.weak pg_ultoa_n
pg_ultoa_n:
.weak pg_ultostr
pg_ultostr:
.weak pg_ultostr_zeropad
pg_ultostr_zeropad:
.weak pg_unicode_to_server
pg_unicode_to_server:
.weak pg_unicode_to_server_noerror
pg_unicode_to_server_noerror:
.weak pg_usleep
pg_usleep:
.weak pg_utf8_islegal
pg_utf8_islegal:
.weak pg_utf_mblen
pg_utf_mblen:
.weak pg_valid_client_encoding
pg_valid_client_encoding:
.weak pg_valid_server_encoding
pg_valid_server_encoding:
.weak pg_valid_server_encoding_id
pg_valid_server_encoding_id:
.weak pg_verify_mbstr
pg_verify_mbstr:
.weak pg_verify_mbstr_len
pg_verify_mbstr_len:
.weak pg_verifymbstr
pg_verifymbstr:
.weak pg_vfprintf
pg_vfprintf:
.weak pg_visible_in_snapshot
pg_visible_in_snapshot:
.weak pg_vprintf
pg_vprintf:
.weak pg_vsnprintf
pg_vsnprintf:
.weak pg_vsprintf
pg_vsprintf:
.weak pg_wal_lsn_diff
pg_wal_lsn_diff:
.weak pg_wal_replay_pause
pg_wal_replay_pause:
.weak pg_wal_replay_resume
pg_wal_replay_resume:
.weak pg_walfile_name
pg_walfile_name:
.weak pg_walfile_name_offset
pg_walfile_name_offset:
.weak pg_wchar2mb
pg_wchar2mb:
.weak pg_wchar2mb_with_len
pg_wchar2mb_with_len:
.weak pg_wchar_strlen
pg_wchar_strlen:
.weak pg_wchar_strncmp
pg_wchar_strncmp:
.weak pg_xact_commit_timestamp
pg_xact_commit_timestamp:
.weak pg_xact_commit_timestamp_origin
pg_xact_commit_timestamp_origin:
.weak pg_xact_status
pg_xact_status:
.weak pgfnames
pgfnames:
.weak pgfnames_cleanup
pgfnames_cleanup:
.weak pgsql_version
pgsql_version:
.weak pgstat_acquire_replslot
pgstat_acquire_replslot:
.weak pgstat_assoc_relation
pgstat_assoc_relation:
.weak pgstat_before_server_shutdown
pgstat_before_server_shutdown:
.weak pgstat_beinit
pgstat_beinit:
.weak pgstat_bestart
pgstat_bestart:
.weak pgstat_bktype_io_stats_valid
pgstat_bktype_io_stats_valid:
.weak pgstat_clear_backend_activity_snapshot
pgstat_clear_backend_activity_snapshot:
.weak pgstat_clear_snapshot
pgstat_clear_snapshot:
.weak pgstat_clip_activity
pgstat_clip_activity:
.weak pgstat_copy_relation_stats
pgstat_copy_relation_stats:
.weak pgstat_count_heap_delete
pgstat_count_heap_delete:
.weak pgstat_count_heap_insert
pgstat_count_heap_insert:
.weak pgstat_count_heap_update
pgstat_count_heap_update:
.weak pgstat_count_io_op
pgstat_count_io_op:
.weak pgstat_count_io_op_n
pgstat_count_io_op_n:
.weak pgstat_count_io_op_time
pgstat_count_io_op_time:
.weak pgstat_count_slru_flush
pgstat_count_slru_flush:
.weak pgstat_count_slru_page_exists
pgstat_count_slru_page_exists:
.weak pgstat_count_slru_page_hit
pgstat_count_slru_page_hit:
.weak pgstat_count_slru_page_read
pgstat_count_slru_page_read:
.weak pgstat_count_slru_page_written
pgstat_count_slru_page_written:
.weak pgstat_count_slru_page_zeroed
pgstat_count_slru_page_zeroed:
.weak pgstat_count_slru_truncate
pgstat_count_slru_truncate:
.weak pgstat_count_truncate
pgstat_count_truncate:
.weak pgstat_create_function
pgstat_create_function:
.weak pgstat_create_relation
pgstat_create_relation:
.weak pgstat_create_replslot
pgstat_create_replslot:
.weak pgstat_create_subscription
pgstat_create_subscription:
.weak pgstat_discard_stats
pgstat_discard_stats:
.weak pgstat_drop_database
pgstat_drop_database:
.weak pgstat_drop_function
pgstat_drop_function:
.weak pgstat_drop_relation
pgstat_drop_relation:
.weak pgstat_drop_replslot
pgstat_drop_replslot:
.weak pgstat_drop_subscription
pgstat_drop_subscription:
.weak pgstat_end_function_usage
pgstat_end_function_usage:
.weak pgstat_execute_transactional_drops
pgstat_execute_transactional_drops:
.weak pgstat_fetch_replslot
pgstat_fetch_replslot:
.weak pgstat_fetch_slru
pgstat_fetch_slru:
.weak pgstat_fetch_stat_archiver
pgstat_fetch_stat_archiver:
.weak pgstat_fetch_stat_bgwriter
pgstat_fetch_stat_bgwriter:
.weak pgstat_fetch_stat_checkpointer
pgstat_fetch_stat_checkpointer:
.weak pgstat_fetch_stat_dbentry
pgstat_fetch_stat_dbentry:
.weak pgstat_fetch_stat_funcentry
pgstat_fetch_stat_funcentry:
.weak pgstat_fetch_stat_io
pgstat_fetch_stat_io:
.weak pgstat_fetch_stat_numbackends
pgstat_fetch_stat_numbackends:
.weak pgstat_fetch_stat_subscription
pgstat_fetch_stat_subscription:
.weak pgstat_fetch_stat_tabentry
pgstat_fetch_stat_tabentry:
.weak pgstat_fetch_stat_tabentry_ext
pgstat_fetch_stat_tabentry_ext:
.weak pgstat_fetch_stat_wal
pgstat_fetch_stat_wal:
.weak pgstat_force_next_flush
pgstat_force_next_flush:
.weak pgstat_get_backend_current_activity
pgstat_get_backend_current_activity:
.weak pgstat_get_beentry_by_backend_id
pgstat_get_beentry_by_backend_id:
.weak pgstat_get_crashed_backend_activity
pgstat_get_crashed_backend_activity:
.weak pgstat_get_io_context_name
pgstat_get_io_context_name:
.weak pgstat_get_io_object_name
pgstat_get_io_object_name:
.weak pgstat_get_kind_from_str
pgstat_get_kind_from_str:
.weak pgstat_get_local_beentry_by_backend_id
pgstat_get_local_beentry_by_backend_id:
.weak pgstat_get_local_beentry_by_index
pgstat_get_local_beentry_by_index:
.weak pgstat_get_my_query_id
pgstat_get_my_query_id:
.weak pgstat_get_slru_index
pgstat_get_slru_index:
.weak pgstat_get_slru_name
pgstat_get_slru_name:
.weak pgstat_get_stat_snapshot_timestamp
pgstat_get_stat_snapshot_timestamp:
.weak pgstat_get_transactional_drops
pgstat_get_transactional_drops:
.weak pgstat_get_wait_event
pgstat_get_wait_event:
.weak pgstat_get_wait_event_type
pgstat_get_wait_event_type:
.weak pgstat_have_entry
pgstat_have_entry:
.weak pgstat_init_function_usage
pgstat_init_function_usage:
.weak pgstat_init_relation
pgstat_init_relation:
.weak pgstat_initialize
pgstat_initialize:
.weak pgstat_prepare_io_time
pgstat_prepare_io_time:
.weak pgstat_progress_end_command
pgstat_progress_end_command:
.weak pgstat_progress_incr_param
pgstat_progress_incr_param:
.weak pgstat_progress_start_command
pgstat_progress_start_command:
.weak pgstat_progress_update_multi_param
pgstat_progress_update_multi_param:
.weak pgstat_progress_update_param
pgstat_progress_update_param:
.weak pgstat_report_activity
pgstat_report_activity:
.weak pgstat_report_analyze
pgstat_report_analyze:
.weak pgstat_report_appname
pgstat_report_appname:
.weak pgstat_report_archiver
pgstat_report_archiver:
.weak pgstat_report_autovac
pgstat_report_autovac:
.weak pgstat_report_bgwriter
pgstat_report_bgwriter:
.weak pgstat_report_checkpointer
pgstat_report_checkpointer:
.weak pgstat_report_checksum_failure
pgstat_report_checksum_failure:
.weak pgstat_report_checksum_failures_in_db
pgstat_report_checksum_failures_in_db:
.weak pgstat_report_connect
pgstat_report_connect:
.weak pgstat_report_deadlock
pgstat_report_deadlock:
.weak pgstat_report_query_id
pgstat_report_query_id:
.weak pgstat_report_recovery_conflict
pgstat_report_recovery_conflict:
.weak pgstat_report_replslot
pgstat_report_replslot:
.weak pgstat_report_stat
pgstat_report_stat:
.weak pgstat_report_subscription_error
pgstat_report_subscription_error:
.weak pgstat_report_tempfile
pgstat_report_tempfile:
.weak pgstat_report_vacuum
pgstat_report_vacuum:
.weak pgstat_report_wait_end
pgstat_report_wait_end:
.weak pgstat_report_wait_start
pgstat_report_wait_start:
.weak pgstat_report_wal
pgstat_report_wal:
.weak pgstat_report_xact_timestamp
pgstat_report_xact_timestamp:
.weak pgstat_reset
pgstat_reset:
.weak pgstat_reset_counters
pgstat_reset_counters:
.weak pgstat_reset_of_kind
pgstat_reset_of_kind:
.weak pgstat_reset_replslot
pgstat_reset_replslot:
.weak pgstat_reset_slru
pgstat_reset_slru:
.weak pgstat_reset_wait_event_storage
pgstat_reset_wait_event_storage:
.weak pgstat_restore_stats
pgstat_restore_stats:
.weak pgstat_set_wait_event_storage
pgstat_set_wait_event_storage:
.weak pgstat_tracks_io_bktype
pgstat_tracks_io_bktype:
.weak pgstat_tracks_io_object
pgstat_tracks_io_object:
.weak pgstat_tracks_io_op
pgstat_tracks_io_op:
.weak pgstat_twophase_postabort
pgstat_twophase_postabort:
.weak pgstat_twophase_postcommit
pgstat_twophase_postcommit:
.weak pgstat_unlink_relation
pgstat_unlink_relation:
.weak pgstat_update_heap_dead_tuples
pgstat_update_heap_dead_tuples:
.weak phraseto_tsquery
phraseto_tsquery:
.weak phraseto_tsquery_byid
phraseto_tsquery_byid:
.weak pipe_read_line
pipe_read_line:
.weak plain_crypt_verify
plain_crypt_verify:
.weak plainto_tsquery
plainto_tsquery:
.weak plainto_tsquery_byid
plainto_tsquery_byid:
.weak plan_cluster_use_sort
plan_cluster_use_sort:
.weak plan_create_index_workers
plan_create_index_workers:
.weak planner
planner:
.weak planstate_tree_walker_impl
planstate_tree_walker_impl:
.weak plpgsql_HashTableInit
plpgsql_HashTableInit:
.weak plpgsql_add_initdatums
plpgsql_add_initdatums:
.weak plpgsql_adddatum
plpgsql_adddatum:
.weak plpgsql_append_source_text
plpgsql_append_source_text:
.weak plpgsql_base_yylex
plpgsql_base_yylex:
.weak plpgsql_build_datatype
plpgsql_build_datatype:
.weak plpgsql_build_recfield
plpgsql_build_recfield:
.weak plpgsql_build_record
plpgsql_build_record:
.weak plpgsql_build_variable
plpgsql_build_variable:
.weak plpgsql_compile
plpgsql_compile:
.weak plpgsql_compile_inline
plpgsql_compile_inline:
.weak plpgsql_dumptree
plpgsql_dumptree:
.weak plpgsql_exec_event_trigger
plpgsql_exec_event_trigger:
.weak plpgsql_exec_function
plpgsql_exec_function:
.weak plpgsql_exec_get_datum_type
plpgsql_exec_get_datum_type:
.weak plpgsql_exec_get_datum_type_info
plpgsql_exec_get_datum_type_info:
.weak plpgsql_exec_trigger
plpgsql_exec_trigger:
.weak plpgsql_free_function_memory
plpgsql_free_function_memory:
.weak plpgsql_getdiag_kindname
plpgsql_getdiag_kindname:
.weak plpgsql_latest_lineno
plpgsql_latest_lineno:
.weak plpgsql_location_to_lineno
plpgsql_location_to_lineno:
.weak plpgsql_ns_additem
plpgsql_ns_additem:
.weak plpgsql_ns_find_nearest_loop
plpgsql_ns_find_nearest_loop:
.weak plpgsql_ns_init
plpgsql_ns_init:
.weak plpgsql_ns_lookup
plpgsql_ns_lookup:
.weak plpgsql_ns_lookup_label
plpgsql_ns_lookup_label:
.weak plpgsql_ns_pop
plpgsql_ns_pop:
.weak plpgsql_ns_push
plpgsql_ns_push:
.weak plpgsql_ns_top
plpgsql_ns_top:
.weak plpgsql_parse_cwordrowtype
plpgsql_parse_cwordrowtype:
.weak plpgsql_parse_cwordtype
plpgsql_parse_cwordtype:
.weak plpgsql_parse_dblword
plpgsql_parse_dblword:
.weak plpgsql_parse_err_condition
plpgsql_parse_err_condition:
.weak plpgsql_parse_tripword
plpgsql_parse_tripword:
.weak plpgsql_parse_word
plpgsql_parse_word:
.weak plpgsql_parse_wordrowtype
plpgsql_parse_wordrowtype:
.weak plpgsql_parse_wordtype
plpgsql_parse_wordtype:
.weak plpgsql_parser_setup
plpgsql_parser_setup:
.weak plpgsql_peek
plpgsql_peek:
.weak plpgsql_peek2
plpgsql_peek2:
.weak plpgsql_push_back_token
plpgsql_push_back_token:
.weak plpgsql_recognize_err_condition
plpgsql_recognize_err_condition:
.weak plpgsql_scanner_errposition
plpgsql_scanner_errposition:
.weak plpgsql_scanner_finish
plpgsql_scanner_finish:
.weak plpgsql_scanner_init
plpgsql_scanner_init:
.weak plpgsql_stmt_typename
plpgsql_stmt_typename:
.weak plpgsql_subxact_cb
plpgsql_subxact_cb:
.weak plpgsql_token_is_unreserved_keyword
plpgsql_token_is_unreserved_keyword:
.weak plpgsql_token_length
plpgsql_token_length:
.weak plpgsql_xact_cb
plpgsql_xact_cb:
.weak plpgsql_yyerror
plpgsql_yyerror:
.weak plpgsql_yylex
plpgsql_yylex:
.weak plpgsql_yyparse
plpgsql_yyparse:
.weak pnstrdup
pnstrdup:
.weak point_above
point_above:
.weak point_add
point_add:
.weak point_below
point_below:
.weak point_box
point_box:
.weak point_distance
point_distance:
.weak point_div
point_div:
.weak point_eq
point_eq:
.weak point_horiz
point_horiz:
.weak point_in
point_in:
.weak point_left
point_left:
.weak point_mul
point_mul:
.weak point_ne
point_ne:
.weak point_out
point_out:
.weak point_recv
point_recv:
.weak point_right
point_right:
.weak point_send
point_send:
.weak point_slope
point_slope:
.weak point_sub
point_sub:
.weak point_vert
point_vert:
.weak points_box
points_box:
.weak poly_above
poly_above:
.weak poly_below
poly_below:
.weak poly_box
poly_box:
.weak poly_center
poly_center:
.weak poly_circle
poly_circle:
.weak poly_contain
poly_contain:
.weak poly_contain_pt
poly_contain_pt:
.weak poly_contained
poly_contained:
.weak poly_distance
poly_distance:
.weak poly_in
poly_in:
.weak poly_left
poly_left:
.weak poly_npoints
poly_npoints:
.weak poly_out
poly_out:
.weak poly_overabove
poly_overabove:
.weak poly_overbelow
poly_overbelow:
.weak poly_overlap
poly_overlap:
.weak poly_overleft
poly_overleft:
.weak poly_overright
poly_overright:
.weak poly_path
poly_path:
.weak poly_recv
poly_recv:
.weak poly_right
poly_right:
.weak poly_same
poly_same:
.weak poly_send
poly_send:
.weak positionjoinsel
positionjoinsel:
.weak positionsel
positionsel:
.weak postgresql_fdw_validator
postgresql_fdw_validator:
.weak pprint
pprint:
.weak pq_beginmessage
pq_beginmessage:
.weak pq_beginmessage_reuse
pq_beginmessage_reuse:
.weak pq_begintypsend
pq_begintypsend:
.weak pq_copymsgbytes
pq_copymsgbytes:
.weak pq_endmessage
pq_endmessage:
.weak pq_endmessage_reuse
pq_endmessage_reuse:
.weak pq_endtypsend
pq_endtypsend:
.weak pq_getmsgbyte
pq_getmsgbyte:
.weak pq_getmsgbytes
pq_getmsgbytes:
.weak pq_getmsgend
pq_getmsgend:
.weak pq_getmsgfloat4
pq_getmsgfloat4:
.weak pq_getmsgfloat8
pq_getmsgfloat8:
.weak pq_getmsgint
pq_getmsgint:
.weak pq_getmsgint64
pq_getmsgint64:
.weak pq_getmsgrawstring
pq_getmsgrawstring:
.weak pq_getmsgstring
pq_getmsgstring:
.weak pq_getmsgtext
pq_getmsgtext:
.weak pq_putemptymessage
pq_putemptymessage:
.weak pq_puttextmessage
pq_puttextmessage:
.weak pq_send_ascii_string
pq_send_ascii_string:
.weak pq_sendbyte
pq_sendbyte:
.weak pq_sendbytes
pq_sendbytes:
.weak pq_sendcountedtext
pq_sendcountedtext:
.weak pq_sendfloat4
pq_sendfloat4:
.weak pq_sendfloat8
pq_sendfloat8:
.weak pq_sendint
pq_sendint:
.weak pq_sendint16
pq_sendint16:
.weak pq_sendint32
pq_sendint32:
.weak pq_sendint64
pq_sendint64:
.weak pq_sendint8
pq_sendint8:
.weak pq_sendstring
pq_sendstring:
.weak pq_sendtext
pq_sendtext:
.weak pq_writeint16
pq_writeint16:
.weak pq_writeint32
pq_writeint32:
.weak pq_writeint64
pq_writeint64:
.weak pq_writeint8
pq_writeint8:
.weak pq_writestring
pq_writestring:
.weak pqsignal
pqsignal:
.weak pre_format_elog_string
pre_format_elog_string:
.weak predicate_implied_by
predicate_implied_by:
.weak predicate_refuted_by
predicate_refuted_by:
.weak prefixjoinsel
prefixjoinsel:
.weak prefixsel
prefixsel:
.weak preprocess_minmax_aggregates
preprocess_minmax_aggregates:
.weak preprocess_phv_expression
preprocess_phv_expression:
.weak pretty_format_node_dump
pretty_format_node_dump:
.weak print
print:
.weak print_expr
print_expr:
.weak print_pathkeys
print_pathkeys:
.weak print_rt
print_rt:
.weak print_slot
print_slot:
.weak print_tl
print_tl:
.weak proc_exit
proc_exit:
.weak process_equivalence
process_equivalence:
.weak process_implied_equality
process_implied_equality:
.weak process_postgres_switches
process_postgres_switches:
.weak process_session_preload_libraries
process_session_preload_libraries:
.weak process_shared_preload_libraries
process_shared_preload_libraries:
.weak process_shmem_requests
process_shmem_requests:
.weak procsignal_sigusr1_handler
procsignal_sigusr1_handler:
.weak prsd_end
prsd_end:
.weak prsd_headline
prsd_headline:
.weak prsd_lextype
prsd_lextype:
.weak prsd_nexttoken
prsd_nexttoken:
.weak prsd_start
prsd_start:
.weak prune_append_rel_partitions
prune_append_rel_partitions:
.weak psprintf
psprintf:
.weak pstrdup
pstrdup:
.weak pt_contained_circle
pt_contained_circle:
.weak pt_contained_poly
pt_contained_poly:
.weak pub_collist_contains_invalid_column
pub_collist_contains_invalid_column:
.weak pub_collist_to_bitmapset
pub_collist_to_bitmapset:
.weak pub_rf_contains_invalid_column
pub_rf_contains_invalid_column:
.weak publication_add_relation
publication_add_relation:
.weak publication_add_schema
publication_add_schema:
.weak pull_paramids
pull_paramids:
.weak pull_var_clause
pull_var_clause:
.weak pull_varattnos
pull_varattnos:
.weak pull_varnos
pull_varnos:
.weak pull_varnos_of_level
pull_varnos_of_level:
.weak pull_vars_of_level
pull_vars_of_level:
.weak pushJsonbValue
pushJsonbValue:
.weak pushOperator
pushOperator:
.weak pushStop
pushStop:
.weak pushValue
pushValue:
.weak pvsnprintf
pvsnprintf:
.weak qsort_arg
qsort_arg:
.weak qsort_interruptible
qsort_interruptible:
.weak query_is_distinct_for
query_is_distinct_for:
.weak query_or_expression_tree_mutator_impl
query_or_expression_tree_mutator_impl:
.weak query_or_expression_tree_walker_impl
query_or_expression_tree_walker_impl:
.weak query_planner
query_planner:
.weak query_supports_distinctness
query_supports_distinctness:
.weak query_to_xml
query_to_xml:
.weak query_to_xml_and_xmlschema
query_to_xml_and_xmlschema:
.weak query_to_xmlschema
query_to_xmlschema:
.weak query_tree_mutator_impl
query_tree_mutator_impl:
.weak query_tree_walker_impl
query_tree_walker_impl:
.weak quickdie
quickdie:
.weak quote_ident
quote_ident:
.weak quote_identifier
quote_identifier:
.weak quote_literal
quote_literal:
.weak quote_literal_cstr
quote_literal_cstr:
.weak quote_nullable
quote_nullable:
.weak quote_qualified_identifier
quote_qualified_identifier:
.weak radians
radians:
.weak rangeTableEntry_used
rangeTableEntry_used:
.weak range_adjacent
range_adjacent:
.weak range_adjacent_internal
range_adjacent_internal:
.weak range_adjacent_multirange
range_adjacent_multirange:
.weak range_after
range_after:
.weak range_after_internal
range_after_internal:
.weak range_after_multirange
range_after_multirange:
.weak range_agg_finalfn
range_agg_finalfn:
.weak range_agg_transfn
range_agg_transfn:
.weak range_before
range_before:
.weak range_before_internal
range_before_internal:
.weak range_before_multirange
range_before_multirange:
.weak range_cmp
range_cmp:
.weak range_cmp_bound_values
range_cmp_bound_values:
.weak range_cmp_bounds
range_cmp_bounds:
.weak range_compare
range_compare:
.weak range_constructor2
range_constructor2:
.weak range_constructor3
range_constructor3:
.weak range_contained_by
range_contained_by:
.weak range_contained_by_internal
range_contained_by_internal:
.weak range_contained_by_multirange
range_contained_by_multirange:
.weak range_contains
range_contains:
.weak range_contains_elem
range_contains_elem:
.weak range_contains_elem_internal
range_contains_elem_internal:
.weak range_contains_internal
range_contains_internal:
.weak range_contains_multirange
range_contains_multirange:
.weak range_deserialize
range_deserialize:
.weak range_empty
range_empty:
.weak range_eq
range_eq:
.weak range_eq_internal
range_eq_internal:
.weak range_ge
range_ge:
.weak range_get_flags
range_get_flags:
.weak range_get_typcache
range_get_typcache:
.weak range_gist_consistent
range_gist_consistent:
.weak range_gist_penalty
range_gist_penalty:
.weak range_gist_picksplit
range_gist_picksplit:
.weak range_gist_same
range_gist_same:
.weak range_gist_union
range_gist_union:
.weak range_gt
range_gt:
.weak range_in
range_in:
.weak range_intersect
range_intersect:
.weak range_intersect_agg_transfn
range_intersect_agg_transfn:
.weak range_intersect_internal
range_intersect_internal:
.weak range_le
range_le:
.weak range_lower
range_lower:
.weak range_lower_inc
range_lower_inc:
.weak range_lower_inf
range_lower_inf:
.weak range_lt
range_lt:
.weak range_merge
range_merge:
.weak range_merge_from_multirange
range_merge_from_multirange:
.weak range_minus
range_minus:
.weak range_minus_internal
range_minus_internal:
.weak range_ne
range_ne:
.weak range_ne_internal
range_ne_internal:
.weak range_out
range_out:
.weak range_overlaps
range_overlaps:
.weak range_overlaps_internal
range_overlaps_internal:
.weak range_overlaps_multirange
range_overlaps_multirange:
.weak range_overleft
range_overleft:
.weak range_overleft_internal
range_overleft_internal:
.weak range_overleft_multirange
range_overleft_multirange:
.weak range_overright
range_overright:
.weak range_overright_internal
range_overright_internal:
.weak range_overright_multirange
range_overright_multirange:
.weak range_recv
range_recv:
.weak range_send
range_send:
.weak range_serialize
range_serialize:
.weak range_set_contain_empty
range_set_contain_empty:
.weak range_split_internal
range_split_internal:
.weak range_table_entry_walker_impl
range_table_entry_walker_impl:
.weak range_table_mutator_impl
range_table_mutator_impl:
.weak range_table_walker_impl
range_table_walker_impl:
.weak range_typanalyze
range_typanalyze:
.weak range_union
range_union:
.weak range_union_internal
range_union_internal:
.weak range_upper
range_upper:
.weak range_upper_inc
range_upper_inc:
.weak range_upper_inf
range_upper_inf:
.weak rangesel
rangesel:
.weak raw_array_subscript_handler
raw_array_subscript_handler:
.weak raw_expression_tree_walker_impl
raw_expression_tree_walker_impl:
.weak raw_parser
raw_parser:
.weak readAttrNumberCols
readAttrNumberCols:
.weak readBitmapset
readBitmapset:
.weak readBoolCols
readBoolCols:
.weak readDatum
readDatum:
.weak readIntCols
readIntCols:
.weak readOidCols
readOidCols:
.weak read_local_xlog_page
read_local_xlog_page:
.weak read_local_xlog_page_no_wait
read_local_xlog_page_no_wait:
.weak read_objtype_from_string
read_objtype_from_string:
.weak readstoplist
readstoplist:
.weak reconsider_outer_join_clauses
reconsider_outer_join_clauses:
.weak recordDependencyOn
recordDependencyOn:
.weak recordDependencyOnCurrentExtension
recordDependencyOnCurrentExtension:
.weak recordDependencyOnExpr
recordDependencyOnExpr:
.weak recordDependencyOnNewAcl
recordDependencyOnNewAcl:
.weak recordDependencyOnOwner
recordDependencyOnOwner:
.weak recordDependencyOnSingleRelExpr
recordDependencyOnSingleRelExpr:
.weak recordDependencyOnTablespace
recordDependencyOnTablespace:
.weak recordExtObjInitPriv
recordExtObjInitPriv:
.weak recordMultipleDependencies
recordMultipleDependencies:
.weak recordSharedDependencyOn
recordSharedDependencyOn:
.weak record_eq
record_eq:
.weak record_ge
record_ge:
.weak record_gt
record_gt:
.weak record_image_eq
record_image_eq:
.weak record_image_ge
record_image_ge:
.weak record_image_gt
record_image_gt:
.weak record_image_le
record_image_le:
.weak record_image_lt
record_image_lt:
.weak record_image_ne
record_image_ne:
.weak record_in
record_in:
.weak record_le
record_le:
.weak record_lt
record_lt:
.weak record_ne
record_ne:
.weak record_object_address_dependencies
record_object_address_dependencies:
.weak record_out
record_out:
.weak record_plan_function_dependency
record_plan_function_dependency:
.weak record_plan_type_dependency
record_plan_type_dependency:
.weak record_recv
record_recv:
.weak record_send
record_send:
.weak reduce_unique_semijoins
reduce_unique_semijoins:
.weak refnameNamespaceItem
refnameNamespaceItem:
.weak regclassin
regclassin:
.weak regclassout
regclassout:
.weak regclassrecv
regclassrecv:
.weak regclasssend
regclasssend:
.weak regcollationin
regcollationin:
.weak regcollationout
regcollationout:
.weak regcollationrecv
regcollationrecv:
.weak regcollationsend
regcollationsend:
.weak regconfigin
regconfigin:
.weak regconfigout
regconfigout:
.weak regconfigrecv
regconfigrecv:
.weak regconfigsend
regconfigsend:
.weak regdictionaryin
regdictionaryin:
.weak regdictionaryout
regdictionaryout:
.weak regdictionaryrecv
regdictionaryrecv:
.weak regdictionarysend
regdictionarysend:
.weak regexeqjoinsel
regexeqjoinsel:
.weak regexeqsel
regexeqsel:
.weak regexnejoinsel
regexnejoinsel:
.weak regexnesel
regexnesel:
.weak regexp_count
regexp_count:
.weak regexp_count_no_flags
regexp_count_no_flags:
.weak regexp_count_no_start
regexp_count_no_start:
.weak regexp_fixed_prefix
regexp_fixed_prefix:
.weak regexp_instr
regexp_instr:
.weak regexp_instr_no_endoption
regexp_instr_no_endoption:
.weak regexp_instr_no_flags
regexp_instr_no_flags:
.weak regexp_instr_no_n
regexp_instr_no_n:
.weak regexp_instr_no_start
regexp_instr_no_start:
.weak regexp_instr_no_subexpr
regexp_instr_no_subexpr:
.weak regexp_like
regexp_like:
.weak regexp_like_no_flags
regexp_like_no_flags:
.weak regexp_match
regexp_match:
.weak regexp_match_no_flags
regexp_match_no_flags:
.weak regexp_matches
regexp_matches:
.weak regexp_matches_no_flags
regexp_matches_no_flags:
.weak regexp_split_to_array
regexp_split_to_array:
.weak regexp_split_to_array_no_flags
regexp_split_to_array_no_flags:
.weak regexp_split_to_table
regexp_split_to_table:
.weak regexp_split_to_table_no_flags
regexp_split_to_table_no_flags:
.weak regexp_substr
regexp_substr:
.weak regexp_substr_no_flags
regexp_substr_no_flags:
.weak regexp_substr_no_n
regexp_substr_no_n:
.weak regexp_substr_no_start
regexp_substr_no_start:
.weak regexp_substr_no_subexpr
regexp_substr_no_subexpr:
.weak register_ENR
register_ENR:
.weak register_label_provider
register_label_provider:
.weak register_on_commit_action
register_on_commit_action:
.weak register_persistent_abort_backup_handler
register_persistent_abort_backup_handler:
.weak register_reloptions_validator
register_reloptions_validator:
.weak regnamespacein
regnamespacein:
.weak regnamespaceout
regnamespaceout:
.weak regnamespacerecv
regnamespacerecv:
.weak regnamespacesend
regnamespacesend:
.weak regoperatorin
regoperatorin:
.weak regoperatorout
regoperatorout:
.weak regoperatorrecv
regoperatorrecv:
.weak regoperatorsend
regoperatorsend:
.weak regoperin
regoperin:
.weak regoperout
regoperout:
.weak regoperrecv
regoperrecv:
.weak regopersend
regopersend:
.weak regprocedurein
regprocedurein:
.weak regprocedureout
regprocedureout:
.weak regprocedurerecv
regprocedurerecv:
.weak regproceduresend
regproceduresend:
.weak regprocin
regprocin:
.weak regprocout
regprocout:
.weak regprocrecv
regprocrecv:
.weak regprocsend
regprocsend:
.weak regrolein
regrolein:
.weak regroleout
regroleout:
.weak regrolerecv
regrolerecv:
.weak regrolesend
regrolesend:
.weak regtypein
regtypein:
.weak regtypeout
regtypeout:
.weak regtyperecv
regtyperecv:
.weak regtypesend
regtypesend:
.weak reindex_index
reindex_index:
.weak reindex_relation
reindex_relation:
.weak relabel_to_typmod
relabel_to_typmod:
.weak relation_can_be_sorted_early
relation_can_be_sorted_early:
.weak relation_close
relation_close:
.weak relation_excluded_by_constraints
relation_excluded_by_constraints:
.weak relation_has_unique_index_for
relation_has_unique_index_for:
.weak relation_is_updatable
relation_is_updatable:
.weak relation_open
relation_open:
.weak relation_openrv
relation_openrv:
.weak relation_openrv_extended
relation_openrv_extended:
.weak removeExtObjInitPriv
removeExtObjInitPriv:
.weak remove_nulling_relids
remove_nulling_relids:
.weak remove_on_commit_action
remove_on_commit_action:
.weak remove_tablespace_symlink
remove_tablespace_symlink:
.weak remove_useless_joins
remove_useless_joins:
.weak renameatt
renameatt:
.weak renametrig
renametrig:
.weak repalloc
repalloc:
.weak repalloc0
repalloc0:
.weak repalloc_extended
repalloc_extended:
.weak repalloc_huge
repalloc_huge:
.weak repalloc_mul
repalloc_mul:
.weak repalloc_mul_extended
repalloc_mul_extended:
.weak reparameterize_path
reparameterize_path:
.weak reparameterize_path_by_child
reparameterize_path_by_child:
.weak repeat
repeat:
.weak repeated
repeated:
.weak replace
replace:
.weak replace_rte_variables
replace_rte_variables:
.weak replace_rte_variables_mutator
replace_rte_variables_mutator:
.weak replace_text
replace_text:
.weak replace_text_regexp
replace_text_regexp:
.weak replication_scanner_finish
replication_scanner_finish:
.weak replication_scanner_init
replication_scanner_init:
.weak replication_scanner_is_replication_command
replication_scanner_is_replication_command:
.weak replication_yyerror
replication_yyerror:
.weak replication_yylex
replication_yylex:
.weak replication_yyparse
replication_yyparse:
.weak replorigin_advance
replorigin_advance:
.weak replorigin_by_name
replorigin_by_name:
.weak replorigin_by_oid
replorigin_by_oid:
.weak replorigin_create
replorigin_create:
.weak replorigin_desc
replorigin_desc:
.weak replorigin_drop_by_name
replorigin_drop_by_name:
.weak replorigin_get_progress
replorigin_get_progress:
.weak replorigin_identify
replorigin_identify:
.weak replorigin_redo
replorigin_redo:
.weak replorigin_session_advance
replorigin_session_advance:
.weak replorigin_session_get_progress
replorigin_session_get_progress:
.weak replorigin_session_reset
replorigin_session_reset:
.weak replorigin_session_setup
replorigin_session_setup:
.weak report_invalid_encoding
report_invalid_encoding:
.weak report_untranslatable_char
report_untranslatable_char:
.weak reservoir_get_next_S
reservoir_get_next_S:
.weak reservoir_init_selection_state
reservoir_init_selection_state:
.weak resetStringInfo
resetStringInfo:
.weak reset_formatted_start_time
reset_formatted_start_time:
.weak reset_on_dsm_detach
reset_on_dsm_detach:
.weak reset_tsvector_parser
reset_tsvector_parser:
.weak resolve_polymorphic_argtypes
resolve_polymorphic_argtypes:
.weak restore_stack_base
restore_stack_base:
.weak restriction_is_or_clause
restriction_is_or_clause:
.weak restriction_is_securely_promotable
restriction_is_securely_promotable:
.weak restriction_selectivity
restriction_selectivity:
.weak rmtree
rmtree:
.weak roleSpecsToIds
roleSpecsToIds:
.weak row_security_active
row_security_active:
.weak row_security_active_name
row_security_active_name:
.weak row_to_json
row_to_json:
.weak row_to_json_pretty
row_to_json_pretty:
.weak rowcomparesel
rowcomparesel:
.weak rpad
rpad:
.weak rtrim
rtrim:
.weak rtrim1
rtrim1:
.weak s_lock
s_lock:
.weak sampler_random_fract
sampler_random_fract:
.weak sampler_random_init_state
sampler_random_init_state:
.weak satisfies_hash_partition
satisfies_hash_partition:
.weak save_ps_display_args
save_ps_display_args:
.weak scalararraysel
scalararraysel:
.weak scalararraysel_containment
scalararraysel_containment:
.weak scalargejoinsel
scalargejoinsel:
.weak scalargesel
scalargesel:
.weak scalargtjoinsel
scalargtjoinsel:
.weak scalargtsel
scalargtsel:
.weak scalarlejoinsel
scalarlejoinsel:
.weak scalarlesel
scalarlesel:
.weak scalarltjoinsel
scalarltjoinsel:
.weak scalarltsel
scalarltsel:
.weak scanNSItemForColumn
scanNSItemForColumn:
.weak scanNameSpaceForCTE
scanNameSpaceForCTE:
.weak scanNameSpaceForENR
scanNameSpaceForENR:
.weak scanner_errposition
scanner_errposition:
.weak scanner_finish
scanner_finish:
.weak scanner_init
scanner_init:
.weak scanner_isspace
scanner_isspace:
.weak scanner_yyerror
scanner_yyerror:
.weak schema_to_xml
schema_to_xml:
.weak schema_to_xml_and_xmlschema
schema_to_xml_and_xmlschema:
.weak schema_to_xmlschema
schema_to_xmlschema:
.weak searchstoplist
searchstoplist:
.weak select_best_admin
select_best_admin:
.weak select_best_grantor
select_best_grantor:
.weak select_common_collation
select_common_collation:
.weak select_common_type
select_common_type:
.weak select_common_typmod
select_common_typmod:
.weak select_outer_pathkeys_for_merge
select_outer_pathkeys_for_merge:
.weak select_rowmark_type
select_rowmark_type:
.weak select_rtable_names_for_explain
select_rtable_names_for_explain:
.weak selected
selected:
.weak sequenceIsOwned
sequenceIsOwned:
.weak serialize_deflist
serialize_deflist:
.weak session_user
session_user:
.weak set_baserel_size_estimates
set_baserel_size_estimates:
.weak set_bit
set_bit:
.weak set_cheapest
set_cheapest:
.weak set_config_by_name
set_config_by_name:
.weak set_config_option
set_config_option:
.weak set_config_option_ext
set_config_option_ext:
.weak set_cte_size_estimates
set_cte_size_estimates:
.weak set_debug_options
set_debug_options:
.weak set_deparse_context_plan
set_deparse_context_plan:
.weak set_distance
set_distance:
.weak set_errcontext_domain
set_errcontext_domain:
.weak set_fn_opclass_options
set_fn_opclass_options:
.weak set_foreign_size_estimates
set_foreign_size_estimates:
.weak set_function_size_estimates
set_function_size_estimates:
.weak set_haspos
set_haspos:
.weak set_in
set_in:
.weak set_joinrel_size_estimates
set_joinrel_size_estimates:
.weak set_len
set_len:
.weak set_length
set_length:
.weak set_lp_flags
set_lp_flags:
.weak set_lp_len
set_lp_len:
.weak set_lp_off
set_lp_off:
.weak set_max_safe_fds
set_max_safe_fds:
.weak set_namedtuplestore_size_estimates
set_namedtuplestore_size_estimates:
.weak set_opfuncid
set_opfuncid:
.weak set_pathtarget_cost_width
set_pathtarget_cost_width:
.weak set_pglocale_pgservice
set_pglocale_pgservice:
.weak set_plan_disabling_options
set_plan_disabling_options:
.weak set_plan_references
set_plan_references:
.weak set_pos
set_pos:
.weak set_ps_display
set_ps_display:
.weak set_ps_display_remove_suffix
set_ps_display_remove_suffix:
.weak set_ps_display_suffix
set_ps_display_suffix:
.weak set_ps_display_with_len
set_ps_display_with_len:
.weak set_repeated
set_repeated:
.weak set_replace
set_replace:
.weak set_result_size_estimates
set_result_size_estimates:
.weak set_sa_opfuncid
set_sa_opfuncid:
.weak set_selected
set_selected:
.weak set_skip
set_skip:
.weak set_spins_per_delay
set_spins_per_delay:
.weak set_stack_base
set_stack_base:
.weak set_subquery_size_estimates
set_subquery_size_estimates:
.weak set_tablefunc_size_estimates
set_tablefunc_size_estimates:
.weak set_type
set_type:
.weak set_unused
set_unused:
.weak set_values_size_estimates
set_values_size_estimates:
.weak setseed
setseed:
.weak setup_parser_errposition_callback
setup_parser_errposition_callback:
.weak setup_scanner_errposition_callback
setup_scanner_errposition_callback:
.weak setup_simple_rel_arrays
setup_simple_rel_arrays:
.weak setval3_oid
setval3_oid:
.weak setval_oid
setval_oid:
.weak sha224_bytea
sha224_bytea:
.weak sha256_bytea
sha256_bytea:
.weak sha384_bytea
sha384_bytea:
.weak sha512_bytea
sha512_bytea:
.weak shdepDropOwned
shdepDropOwned:
.weak shdepLockAndCheckObject
shdepLockAndCheckObject:
.weak shdepReassignOwned
shdepReassignOwned:
.weak shell_in
shell_in:
.weak shell_out
shell_out:
.weak shm_mq_attach
shm_mq_attach:
.weak shm_mq_create
shm_mq_create:
.weak shm_mq_detach
shm_mq_detach:
.weak shm_mq_get_queue
shm_mq_get_queue:
.weak shm_mq_get_receiver
shm_mq_get_receiver:
.weak shm_mq_get_sender
shm_mq_get_sender:
.weak shm_mq_receive
shm_mq_receive:
.weak shm_mq_send
shm_mq_send:
.weak shm_mq_sendv
shm_mq_sendv:
.weak shm_mq_set_handle
shm_mq_set_handle:
.weak shm_mq_set_receiver
shm_mq_set_receiver:
.weak shm_mq_set_sender
shm_mq_set_sender:
.weak shm_mq_wait_for_attach
shm_mq_wait_for_attach:
.weak shm_toc_allocate
shm_toc_allocate:
.weak shm_toc_attach
shm_toc_attach:
.weak shm_toc_create
shm_toc_create:
.weak shm_toc_estimate
shm_toc_estimate:
.weak shm_toc_freespace
shm_toc_freespace:
.weak shm_toc_insert
shm_toc_insert:
.weak shm_toc_lookup
shm_toc_lookup:
.weak shmem_exit
shmem_exit:
.weak show_all_file_settings
show_all_file_settings:
.weak show_all_settings
show_all_settings:
.weak show_config_by_name
show_config_by_name:
.weak show_config_by_name_missing_ok
show_config_by_name_missing_ok:
.weak similar_escape
similar_escape:
.weak similar_to_escape_1
similar_to_escape_1:
.weak similar_to_escape_2
similar_to_escape_2:
.weak simple_heap_delete
simple_heap_delete:
.weak simple_heap_insert
simple_heap_insert:
.weak simple_heap_update
simple_heap_update:
.weak simple_table_tuple_delete
simple_table_tuple_delete:
.weak simple_table_tuple_insert
simple_table_tuple_insert:
.weak simple_table_tuple_update
simple_table_tuple_update:
.weak skip
skip:
.weak slist_delete
slist_delete:
.weak slist_delete_current
slist_delete_current:
.weak slist_has_next
slist_has_next:
.weak slist_head_element_off
slist_head_element_off:
.weak slist_head_node
slist_head_node:
.weak slist_init
slist_init:
.weak slist_insert_after
slist_insert_after:
.weak slist_is_empty
slist_is_empty:
.weak slist_next_node
slist_next_node:
.weak slist_pop_head_node
slist_pop_head_node:
.weak slist_push_head
slist_push_head:
.weak slot_attisnull
slot_attisnull:
.weak slot_getallattrs
slot_getallattrs:
.weak slot_getattr
slot_getattr:
.weak slot_getmissingattrs
slot_getmissingattrs:
.weak slot_getsomeattrs
slot_getsomeattrs:
.weak slot_getsomeattrs_int
slot_getsomeattrs_int:
.weak slot_getsysattr
slot_getsysattr:
.weak smgrDoPendingDeletes
smgrDoPendingDeletes:
.weak smgrDoPendingSyncs
smgrDoPendingSyncs:
.weak smgrGetPendingDeletes
smgrGetPendingDeletes:
.weak smgrclearowner
smgrclearowner:
.weak smgrclose
smgrclose:
.weak smgrcloseall
smgrcloseall:
.weak smgrcloserellocator
smgrcloserellocator:
.weak smgrcreate
smgrcreate:
.weak smgrdosyncall
smgrdosyncall:
.weak smgrdounlinkall
smgrdounlinkall:
.weak smgrexists
smgrexists:
.weak smgrextend
smgrextend:
.weak smgrimmedsync
smgrimmedsync:
.weak smgrinit
smgrinit:
.weak smgrnblocks
smgrnblocks:
.weak smgrnblocks_cached
smgrnblocks_cached:
.weak smgropen
smgropen:
.weak smgrprefetch
smgrprefetch:
.weak smgrread
smgrread:
.weak smgrrelease
smgrrelease:
.weak smgrreleaseall
smgrreleaseall:
.weak smgrsetowner
smgrsetowner:
.weak smgrtruncate
smgrtruncate:
.weak smgrtruncate2
smgrtruncate2:
.weak smgrwrite
smgrwrite:
.weak smgrwriteback
smgrwriteback:
.weak smgrzeroextend
smgrzeroextend:
.weak sort_object_addresses
sort_object_addresses:
.weak spg_bbox_quad_config
spg_bbox_quad_config:
.weak spg_box_quad_choose
spg_box_quad_choose:
.weak spg_box_quad_config
spg_box_quad_config:
.weak spg_box_quad_inner_consistent
spg_box_quad_inner_consistent:
.weak spg_box_quad_leaf_consistent
spg_box_quad_leaf_consistent:
.weak spg_box_quad_picksplit
spg_box_quad_picksplit:
.weak spg_kd_choose
spg_kd_choose:
.weak spg_kd_config
spg_kd_config:
.weak spg_kd_inner_consistent
spg_kd_inner_consistent:
.weak spg_kd_picksplit
spg_kd_picksplit:
.weak spg_poly_quad_compress
spg_poly_quad_compress:
.weak spg_quad_choose
spg_quad_choose:
.weak spg_quad_config
spg_quad_config:
.weak spg_quad_inner_consistent
spg_quad_inner_consistent:
.weak spg_quad_leaf_consistent
spg_quad_leaf_consistent:
.weak spg_quad_picksplit
spg_quad_picksplit:
.weak spg_range_quad_choose
spg_range_quad_choose:
.weak spg_range_quad_config
spg_range_quad_config:
.weak spg_range_quad_inner_consistent
spg_range_quad_inner_consistent:
.weak spg_range_quad_leaf_consistent
spg_range_quad_leaf_consistent:
.weak spg_range_quad_picksplit
spg_range_quad_picksplit:
.weak spg_text_choose
spg_text_choose:
.weak spg_text_config
spg_text_config:
.weak spg_text_inner_consistent
spg_text_inner_consistent:
.weak spg_text_leaf_consistent
spg_text_leaf_consistent:
.weak spg_text_picksplit
spg_text_picksplit:
.weak spghandler
spghandler:
.weak spin_delay
spin_delay:
.weak split_part
split_part:
.weak split_pathtarget_at_srfs
split_pathtarget_at_srfs:
.weak ssup_datum_int32_cmp
ssup_datum_int32_cmp:
.weak ssup_datum_signed_cmp
ssup_datum_signed_cmp:
.weak ssup_datum_unsigned_cmp
ssup_datum_unsigned_cmp:
.weak stack_is_too_deep
stack_is_too_deep:
.weak standard_ExecutorEnd
standard_ExecutorEnd:
.weak standard_ExecutorFinish
standard_ExecutorFinish:
.weak standard_ExecutorRun
standard_ExecutorRun:
.weak standard_ExecutorStart
standard_ExecutorStart:
.weak standard_ProcessUtility
standard_ProcessUtility:
.weak standard_join_search
standard_join_search:
.weak standard_planner
standard_planner:
.weak standby_desc
standby_desc:
.weak standby_desc_invalidations
standby_desc_invalidations:
.weak standby_identify
standby_identify:
.weak standby_redo
standby_redo:
.weak statement_timestamp
statement_timestamp:
.weak statext_clauselist_selectivity
statext_clauselist_selectivity:
.weak statext_dependencies_load
statext_dependencies_load:
.weak statext_expressions_load
statext_expressions_load:
.weak statext_is_kind_built
statext_is_kind_built:
.weak statext_mcv_load
statext_mcv_load:
.weak statext_ndistinct_load
statext_ndistinct_load:
.weak statistic_proc_security_check
statistic_proc_security_check:
.weak std_typanalyze
std_typanalyze:
.weak stmt_requires_parse_analysis
stmt_requires_parse_analysis:
.weak store_att_byval
store_att_byval:
.weak stringToNode
stringToNode:
.weak stringToQualifiedNameList
stringToQualifiedNameList:
.weak stringTypeDatum
stringTypeDatum:
.weak string_agg_combine
string_agg_combine:
.weak string_agg_deserialize
string_agg_deserialize:
.weak string_agg_finalfn
string_agg_finalfn:
.weak string_agg_serialize
string_agg_serialize:
.weak string_agg_transfn
string_agg_transfn:
.weak strip_implicit_coercions
strip_implicit_coercions:
.weak strlist_to_textarray
strlist_to_textarray:
.weak sts_attach
sts_attach:
.weak sts_begin_parallel_scan
sts_begin_parallel_scan:
.weak sts_end_parallel_scan
sts_end_parallel_scan:
.weak sts_end_write
sts_end_write:
.weak sts_estimate
sts_estimate:
.weak sts_initialize
sts_initialize:
.weak sts_parallel_scan_next
sts_parallel_scan_next:
.weak sts_puttuple
sts_puttuple:
.weak sts_reinitialize
sts_reinitialize:
.weak subquery_planner
subquery_planner:
.weak superuser
superuser:
.weak superuser_arg
superuser_arg:
.weak suppress_redundant_updates_trigger
suppress_redundant_updates_trigger:
.weak surrogate_pair_to_codepoint
surrogate_pair_to_codepoint:
.weak syncrep_scanner_finish
syncrep_scanner_finish:
.weak syncrep_scanner_init
syncrep_scanner_init:
.weak syncrep_yyerror
syncrep_yyerror:
.weak syncrep_yylex
syncrep_yylex:
.weak syncrep_yyparse
syncrep_yyparse:
.weak systable_beginscan
systable_beginscan:
.weak systable_beginscan_ordered
systable_beginscan_ordered:
.weak systable_endscan
systable_endscan:
.weak systable_endscan_ordered
systable_endscan_ordered:
.weak systable_getnext
systable_getnext:
.weak systable_getnext_ordered
systable_getnext_ordered:
.weak systable_inplace_update_begin
systable_inplace_update_begin:
.weak systable_inplace_update_cancel
systable_inplace_update_cancel:
.weak systable_inplace_update_finish
systable_inplace_update_finish:
.weak systable_recheck_tuple
systable_recheck_tuple:
.weak system_user
system_user:
.weak table_am_handler_in
table_am_handler_in:
.weak table_am_handler_out
table_am_handler_out:
.weak table_beginscan
table_beginscan:
.weak table_beginscan_analyze
table_beginscan_analyze:
.weak table_beginscan_bm
table_beginscan_bm:
.weak table_beginscan_catalog
table_beginscan_catalog:
.weak table_beginscan_parallel
table_beginscan_parallel:
.weak table_beginscan_sampling
table_beginscan_sampling:
.weak table_beginscan_strat
table_beginscan_strat:
.weak table_beginscan_tid
table_beginscan_tid:
.weak table_beginscan_tidrange
table_beginscan_tidrange:
.weak table_block_parallelscan_estimate
table_block_parallelscan_estimate:
.weak table_block_parallelscan_initialize
table_block_parallelscan_initialize:
.weak table_block_parallelscan_nextpage
table_block_parallelscan_nextpage:
.weak table_block_parallelscan_reinitialize
table_block_parallelscan_reinitialize:
.weak table_block_parallelscan_startblock_init
table_block_parallelscan_startblock_init:
.weak table_block_relation_estimate_size
table_block_relation_estimate_size:
.weak table_block_relation_size
table_block_relation_size:
.weak table_close
table_close:
.weak table_endscan
table_endscan:
.weak table_finish_bulk_insert
table_finish_bulk_insert:
.weak table_index_build_range_scan
table_index_build_range_scan:
.weak table_index_build_scan
table_index_build_scan:
.weak table_index_delete_tuples
table_index_delete_tuples:
.weak table_index_fetch_begin
table_index_fetch_begin:
.weak table_index_fetch_end
table_index_fetch_end:
.weak table_index_fetch_reset
table_index_fetch_reset:
.weak table_index_fetch_tuple
table_index_fetch_tuple:
.weak table_index_fetch_tuple_check
table_index_fetch_tuple_check:
.weak table_index_validate_scan
table_index_validate_scan:
.weak table_multi_insert
table_multi_insert:
.weak table_open
table_open:
.weak table_openrv
table_openrv:
.weak table_openrv_extended
table_openrv_extended:
.weak table_parallelscan_estimate
table_parallelscan_estimate:
.weak table_parallelscan_initialize
table_parallelscan_initialize:
.weak table_parallelscan_reinitialize
table_parallelscan_reinitialize:
.weak table_relation_copy_data
table_relation_copy_data:
.weak table_relation_copy_for_cluster
table_relation_copy_for_cluster:
.weak table_relation_estimate_size
table_relation_estimate_size:
.weak table_relation_fetch_toast_slice
table_relation_fetch_toast_slice:
.weak table_relation_needs_toast_table
table_relation_needs_toast_table:
.weak table_relation_nontransactional_truncate
table_relation_nontransactional_truncate:
.weak table_relation_set_new_filelocator
table_relation_set_new_filelocator:
.weak table_relation_size
table_relation_size:
.weak table_relation_toast_am
table_relation_toast_am:
.weak table_relation_vacuum
table_relation_vacuum:
.weak table_rescan
table_rescan:
.weak table_rescan_set_params
table_rescan_set_params:
.weak table_rescan_tidrange
table_rescan_tidrange:
.weak table_scan_analyze_next_block
table_scan_analyze_next_block:
.weak table_scan_analyze_next_tuple
table_scan_analyze_next_tuple:
.weak table_scan_bitmap_next_block
table_scan_bitmap_next_block:
.weak table_scan_bitmap_next_tuple
table_scan_bitmap_next_tuple:
.weak table_scan_getnextslot
table_scan_getnextslot:
.weak table_scan_getnextslot_tidrange
table_scan_getnextslot_tidrange:
.weak table_scan_sample_next_block
table_scan_sample_next_block:
.weak table_scan_sample_next_tuple
table_scan_sample_next_tuple:
.weak table_scan_update_snapshot
table_scan_update_snapshot:
.weak table_slot_callbacks
table_slot_callbacks:
.weak table_slot_create
table_slot_create:
.weak table_to_xml
table_to_xml:
.weak table_to_xml_and_xmlschema
table_to_xml_and_xmlschema:
.weak table_to_xmlschema
table_to_xmlschema:
.weak table_tuple_complete_speculative
table_tuple_complete_speculative:
.weak table_tuple_delete
table_tuple_delete:
.weak table_tuple_fetch_row_version
table_tuple_fetch_row_version:
.weak table_tuple_get_latest_tid
table_tuple_get_latest_tid:
.weak table_tuple_insert
table_tuple_insert:
.weak table_tuple_insert_speculative
table_tuple_insert_speculative:
.weak table_tuple_lock
table_tuple_lock:
.weak table_tuple_satisfies_snapshot
table_tuple_satisfies_snapshot:
.weak table_tuple_tid_valid
table_tuple_tid_valid:
.weak table_tuple_update
table_tuple_update:
.weak tablespace_reloptions
tablespace_reloptions:
.weak tblspc_desc
tblspc_desc:
.weak tblspc_identify
tblspc_identify:
.weak tblspc_redo
tblspc_redo:
.weak tbm_add_page
tbm_add_page:
.weak tbm_add_tuples
tbm_add_tuples:
.weak tbm_attach_shared_iterate
tbm_attach_shared_iterate:
.weak tbm_begin_iterate
tbm_begin_iterate:
.weak tbm_calculate_entries
tbm_calculate_entries:
.weak tbm_create
tbm_create:
.weak tbm_end_iterate
tbm_end_iterate:
.weak tbm_end_shared_iterate
tbm_end_shared_iterate:
.weak tbm_free
tbm_free:
.weak tbm_free_shared_area
tbm_free_shared_area:
.weak tbm_intersect
tbm_intersect:
.weak tbm_is_empty
tbm_is_empty:
.weak tbm_iterate
tbm_iterate:
.weak tbm_prepare_shared_iterate
tbm_prepare_shared_iterate:
.weak tbm_shared_iterate
tbm_shared_iterate:
.weak tbm_union
tbm_union:
.weak textToQualifiedNameList
textToQualifiedNameList:
.weak text_char
text_char:
.weak text_concat
text_concat:
.weak text_concat_ws
text_concat_ws:
.weak text_format
text_format:
.weak text_format_nv
text_format_nv:
.weak text_ge
text_ge:
.weak text_gt
text_gt:
.weak text_larger
text_larger:
.weak text_le
text_le:
.weak text_left
text_left:
.weak text_lt
text_lt:
.weak text_name
text_name:
.weak text_pattern_ge
text_pattern_ge:
.weak text_pattern_gt
text_pattern_gt:
.weak text_pattern_le
text_pattern_le:
.weak text_pattern_lt
text_pattern_lt:
.weak text_regclass
text_regclass:
.weak text_reverse
text_reverse:
.weak text_right
text_right:
.weak text_smaller
text_smaller:
.weak text_starts_with
text_starts_with:
.weak text_starts_with_support
text_starts_with_support:
.weak text_substr
text_substr:
.weak text_substr_no_len
text_substr_no_len:
.weak text_to_array
text_to_array:
.weak text_to_array_null
text_to_array_null:
.weak text_to_cstring
text_to_cstring:
.weak text_to_cstring_buffer
text_to_cstring_buffer:
.weak text_to_table
text_to_table:
.weak text_to_table_null
text_to_table_null:
.weak textcat
textcat:
.weak texteq
texteq:
.weak texteqname
texteqname:
.weak textgename
textgename:
.weak textgtname
textgtname:
.weak texticlike
texticlike:
.weak texticlike_support
texticlike_support:
.weak texticnlike
texticnlike:
.weak texticregexeq
texticregexeq:
.weak texticregexeq_support
texticregexeq_support:
.weak texticregexne
texticregexne:
.weak textin
textin:
.weak textlen
textlen:
.weak textlename
textlename:
.weak textlike
textlike:
.weak textlike_support
textlike_support:
.weak textltname
textltname:
.weak textne
textne:
.weak textnename
textnename:
.weak textnlike
textnlike:
.weak textoctetlen
textoctetlen:
.weak textout
textout:
.weak textoverlay
textoverlay:
.weak textoverlay_no_len
textoverlay_no_len:
.weak textpos
textpos:
.weak textrecv
textrecv:
.weak textregexeq
textregexeq:
.weak textregexeq_support
textregexeq_support:
.weak textregexne
textregexne:
.weak textregexreplace
textregexreplace:
.weak textregexreplace_extended
textregexreplace_extended:
.weak textregexreplace_extended_no_flags
textregexreplace_extended_no_flags:
.weak textregexreplace_extended_no_n
textregexreplace_extended_no_n:
.weak textregexreplace_noopt
textregexreplace_noopt:
.weak textregexsubstr
textregexsubstr:
.weak textsend
textsend:
.weak texttoxml
texttoxml:
.weak thesaurus_init
thesaurus_init:
.weak thesaurus_lexize
thesaurus_lexize:
.weak tideq
tideq:
.weak tidge
tidge:
.weak tidgt
tidgt:
.weak tidin
tidin:
.weak tidlarger
tidlarger:
.weak tidle
tidle:
.weak tidlt
tidlt:
.weak tidne
tidne:
.weak tidout
tidout:
.weak tidrecv
tidrecv:
.weak tidsend
tidsend:
.weak tidsmaller
tidsmaller:
.weak time2tm
time2tm:
.weak time_cmp
time_cmp:
.weak time_eq
time_eq:
.weak time_ge
time_ge:
.weak time_gt
time_gt:
.weak time_hash
time_hash:
.weak time_hash_extended
time_hash_extended:
.weak time_in
time_in:
.weak time_interval
time_interval:
.weak time_larger
time_larger:
.weak time_le
time_le:
.weak time_lt
time_lt:
.weak time_mi_interval
time_mi_interval:
.weak time_mi_time
time_mi_time:
.weak time_ne
time_ne:
.weak time_out
time_out:
.weak time_overflows
time_overflows:
.weak time_part
time_part:
.weak time_pl_interval
time_pl_interval:
.weak time_recv
time_recv:
.weak time_scale
time_scale:
.weak time_send
time_send:
.weak time_smaller
time_smaller:
.weak time_support
time_support:
.weak time_t_to_timestamptz
time_t_to_timestamptz:
.weak time_timetz
time_timetz:
.weak timeofday
timeofday:
.weak timestamp2timestamptz_opt_overflow
timestamp2timestamptz_opt_overflow:
.weak timestamp2tm
timestamp2tm:
.weak timestamp_age
timestamp_age:
.weak timestamp_bin
timestamp_bin:
.weak timestamp_cmp
timestamp_cmp:
.weak timestamp_cmp_date
timestamp_cmp_date:
.weak timestamp_cmp_internal
timestamp_cmp_internal:
.weak timestamp_cmp_timestamptz
timestamp_cmp_timestamptz:
.weak timestamp_cmp_timestamptz_internal
timestamp_cmp_timestamptz_internal:
.weak timestamp_date
timestamp_date:
.weak timestamp_eq
timestamp_eq:
.weak timestamp_eq_date
timestamp_eq_date:
.weak timestamp_eq_timestamptz
timestamp_eq_timestamptz:
.weak timestamp_finite
timestamp_finite:
.weak timestamp_ge
timestamp_ge:
.weak timestamp_ge_date
timestamp_ge_date:
.weak timestamp_ge_timestamptz
timestamp_ge_timestamptz:
.weak timestamp_gt
timestamp_gt:
.weak timestamp_gt_date
timestamp_gt_date:
.weak timestamp_gt_timestamptz
timestamp_gt_timestamptz:
.weak timestamp_hash
timestamp_hash:
.weak timestamp_hash_extended
timestamp_hash_extended:
.weak timestamp_in
timestamp_in:
.weak timestamp_izone
timestamp_izone:
.weak timestamp_larger
timestamp_larger:
.weak timestamp_le
timestamp_le:
.weak timestamp_le_date
timestamp_le_date:
.weak timestamp_le_timestamptz
timestamp_le_timestamptz:
.weak timestamp_lt
timestamp_lt:
.weak timestamp_lt_date
timestamp_lt_date:
.weak timestamp_lt_timestamptz
timestamp_lt_timestamptz:
.weak timestamp_mi
timestamp_mi:
.weak timestamp_mi_interval
timestamp_mi_interval:
.weak timestamp_ne
timestamp_ne:
.weak timestamp_ne_date
timestamp_ne_date:
.weak timestamp_ne_timestamptz
timestamp_ne_timestamptz:
.weak timestamp_out
timestamp_out:
.weak timestamp_part
timestamp_part:
.weak timestamp_pl_interval
timestamp_pl_interval:
.weak timestamp_recv
timestamp_recv:
.weak timestamp_scale
timestamp_scale:
.weak timestamp_send
timestamp_send:
.weak timestamp_smaller
timestamp_smaller:
.weak timestamp_sortsupport
timestamp_sortsupport:
.weak timestamp_support
timestamp_support:
.weak timestamp_time
timestamp_time:
.weak timestamp_timestamptz
timestamp_timestamptz:
.weak timestamp_to_char
timestamp_to_char:
.weak timestamp_trunc
timestamp_trunc:
.weak timestamp_zone
timestamp_zone:
.weak timestamptypmodin
timestamptypmodin:
.weak timestamptypmodout
timestamptypmodout:
.weak timestamptz_age
timestamptz_age:
.weak timestamptz_bin
timestamptz_bin:
.weak timestamptz_cmp_date
timestamptz_cmp_date:
.weak timestamptz_cmp_timestamp
timestamptz_cmp_timestamp:
.weak timestamptz_date
timestamptz_date:
.weak timestamptz_eq_date
timestamptz_eq_date:
.weak timestamptz_eq_timestamp
timestamptz_eq_timestamp:
.weak timestamptz_ge_date
timestamptz_ge_date:
.weak timestamptz_ge_timestamp
timestamptz_ge_timestamp:
.weak timestamptz_gt_date
timestamptz_gt_date:
.weak timestamptz_gt_timestamp
timestamptz_gt_timestamp:
.weak timestamptz_in
timestamptz_in:
.weak timestamptz_izone
timestamptz_izone:
.weak timestamptz_le_date
timestamptz_le_date:
.weak timestamptz_le_timestamp
timestamptz_le_timestamp:
.weak timestamptz_lt_date
timestamptz_lt_date:
.weak timestamptz_lt_timestamp
timestamptz_lt_timestamp:
.weak timestamptz_mi_interval
timestamptz_mi_interval:
.weak timestamptz_mi_interval_at_zone
timestamptz_mi_interval_at_zone:
.weak timestamptz_ne_date
timestamptz_ne_date:
.weak timestamptz_ne_timestamp
timestamptz_ne_timestamp:
.weak timestamptz_out
timestamptz_out:
.weak timestamptz_part
timestamptz_part:
.weak timestamptz_pl_interval
timestamptz_pl_interval:
.weak timestamptz_pl_interval_at_zone
timestamptz_pl_interval_at_zone:
.weak timestamptz_recv
timestamptz_recv:
.weak timestamptz_scale
timestamptz_scale:
.weak timestamptz_send
timestamptz_send:
.weak timestamptz_time
timestamptz_time:
.weak timestamptz_timestamp
timestamptz_timestamp:
.weak timestamptz_timetz
timestamptz_timetz:
.weak timestamptz_to_char
timestamptz_to_char:
.weak timestamptz_to_str
timestamptz_to_str:
.weak timestamptz_to_time_t
timestamptz_to_time_t:
.weak timestamptz_trunc
timestamptz_trunc:
.weak timestamptz_trunc_zone
timestamptz_trunc_zone:
.weak timestamptz_zone
timestamptz_zone:
.weak timestamptztypmodin
timestamptztypmodin:
.weak timestamptztypmodout
timestamptztypmodout:
.weak timetypmodin
timetypmodin:
.weak timetypmodout
timetypmodout:
.weak timetz2tm
timetz2tm:
.weak timetz_cmp
timetz_cmp:
.weak timetz_eq
timetz_eq:
.weak timetz_ge
timetz_ge:
.weak timetz_gt
timetz_gt:
.weak timetz_hash
timetz_hash:
.weak timetz_hash_extended
timetz_hash_extended:
.weak timetz_in
timetz_in:
.weak timetz_izone
timetz_izone:
.weak timetz_larger
timetz_larger:
.weak timetz_le
timetz_le:
.weak timetz_lt
timetz_lt:
.weak timetz_mi_interval
timetz_mi_interval:
.weak timetz_ne
timetz_ne:
.weak timetz_out
timetz_out:
.weak timetz_part
timetz_part:
.weak timetz_pl_interval
timetz_pl_interval:
.weak timetz_recv
timetz_recv:
.weak timetz_scale
timetz_scale:
.weak timetz_send
timetz_send:
.weak timetz_smaller
timetz_smaller:
.weak timetz_time
timetz_time:
.weak timetz_zone
timetz_zone:
.weak timetztypmodin
timetztypmodin:
.weak timetztypmodout
timetztypmodout:
.weak timingsafe_bcmp
timingsafe_bcmp:
.weak tlist_member
tlist_member:
.weak tlist_same_collations
tlist_same_collations:
.weak tlist_same_datatypes
tlist_same_datatypes:
.weak tlist_same_exprs
tlist_same_exprs:
.weak tm2time
tm2time:
.weak tm2timestamp
tm2timestamp:
.weak tm2timetz
tm2timetz:
.weak to_ascii_default
to_ascii_default:
.weak to_ascii_enc
to_ascii_enc:
.weak to_ascii_encname
to_ascii_encname:
.weak to_date
to_date:
.weak to_hex32
to_hex32:
.weak to_hex64
to_hex64:
.weak to_json
to_json:
.weak to_json_is_immutable
to_json_is_immutable:
.weak to_jsonb
to_jsonb:
.weak to_jsonb_is_immutable
to_jsonb_is_immutable:
.weak to_regclass
to_regclass:
.weak to_regcollation
to_regcollation:
.weak to_regnamespace
to_regnamespace:
.weak to_regoper
to_regoper:
.weak to_regoperator
to_regoperator:
.weak to_regproc
to_regproc:
.weak to_regprocedure
to_regprocedure:
.weak to_regrole
to_regrole:
.weak to_regtype
to_regtype:
.weak to_timestamp
to_timestamp:
.weak to_tsquery
to_tsquery:
.weak to_tsquery_byid
to_tsquery_byid:
.weak to_tsvector
to_tsvector:
.weak to_tsvector_byid
to_tsvector_byid:
.weak toast_datum_size
toast_datum_size:
.weak toast_raw_datum_size
toast_raw_datum_size:
.weak trace_recovery
trace_recovery:
.weak trackDroppedObjectsNeeded
trackDroppedObjectsNeeded:
.weak transformContainerSubscripts
transformContainerSubscripts:
.weak transformContainerType
transformContainerType:
.weak transformExpr
transformExpr:
.weak transformGenericOptions
transformGenericOptions:
.weak transformInsertRow
transformInsertRow:
.weak transformRelOptions
transformRelOptions:
.weak transformStmt
transformStmt:
.weak transformTopLevelStmt
transformTopLevelStmt:
.weak transformUpdateTargetList
transformUpdateTargetList:
.weak translate
translate:
.weak trigger_in
trigger_in:
.weak trigger_out
trigger_out:
.weak trim_array
trim_array:
.weak trim_mergeclauses_for_inner_pathkeys
trim_mergeclauses_for_inner_pathkeys:
.weak trivial_subqueryscan
trivial_subqueryscan:
.weak truncate_identifier
truncate_identifier:
.weak truncate_useless_pathkeys
truncate_useless_pathkeys:
.weak try_index_open
try_index_open:
.weak try_relation_open
try_relation_open:
.weak try_table_open
try_table_open:
.weak tsCompareString
tsCompareString:
.weak ts_headline
ts_headline:
.weak ts_headline_byid
ts_headline_byid:
.weak ts_headline_byid_opt
ts_headline_byid_opt:
.weak ts_headline_json
ts_headline_json:
.weak ts_headline_json_byid
ts_headline_json_byid:
.weak ts_headline_json_byid_opt
ts_headline_json_byid_opt:
.weak ts_headline_json_opt
ts_headline_json_opt:
.weak ts_headline_jsonb
ts_headline_jsonb:
.weak ts_headline_jsonb_byid
ts_headline_jsonb_byid:
.weak ts_headline_jsonb_byid_opt
ts_headline_jsonb_byid_opt:
.weak ts_headline_jsonb_opt
ts_headline_jsonb_opt:
.weak ts_headline_opt
ts_headline_opt:
.weak ts_lexize
ts_lexize:
.weak ts_match_qv
ts_match_qv:
.weak ts_match_tq
ts_match_tq:
.weak ts_match_tt
ts_match_tt:
.weak ts_match_vq
ts_match_vq:
.weak ts_parse_byid
ts_parse_byid:
.weak ts_parse_byname
ts_parse_byname:
.weak ts_rank_tt
ts_rank_tt:
.weak ts_rank_ttf
ts_rank_ttf:
.weak ts_rank_wtt
ts_rank_wtt:
.weak ts_rank_wttf
ts_rank_wttf:
.weak ts_rankcd_tt
ts_rankcd_tt:
.weak ts_rankcd_ttf
ts_rankcd_ttf:
.weak ts_rankcd_wtt
ts_rankcd_wtt:
.weak ts_rankcd_wttf
ts_rankcd_wttf:
.weak ts_stat1
ts_stat1:
.weak ts_stat2
ts_stat2:
.weak ts_token_type_byid
ts_token_type_byid:
.weak ts_token_type_byname
ts_token_type_byname:
.weak ts_typanalyze
ts_typanalyze:
.weak tsm_bernoulli_handler
tsm_bernoulli_handler:
.weak tsm_handler_in
tsm_handler_in:
.weak tsm_handler_out
tsm_handler_out:
.weak tsm_system_handler
tsm_system_handler:
.weak tsmatchjoinsel
tsmatchjoinsel:
.weak tsmatchsel
tsmatchsel:
.weak tsq_mcontained
tsq_mcontained:
.weak tsq_mcontains
tsq_mcontains:
.weak tsquery_and
tsquery_and:
.weak tsquery_cmp
tsquery_cmp:
.weak tsquery_eq
tsquery_eq:
.weak tsquery_ge
tsquery_ge:
.weak tsquery_gt
tsquery_gt:
.weak tsquery_le
tsquery_le:
.weak tsquery_lt
tsquery_lt:
.weak tsquery_ne
tsquery_ne:
.weak tsquery_not
tsquery_not:
.weak tsquery_numnode
tsquery_numnode:
.weak tsquery_or
tsquery_or:
.weak tsquery_phrase
tsquery_phrase:
.weak tsquery_phrase_distance
tsquery_phrase_distance:
.weak tsquery_requires_match
tsquery_requires_match:
.weak tsquery_rewrite
tsquery_rewrite:
.weak tsquery_rewrite_query
tsquery_rewrite_query:
.weak tsqueryin
tsqueryin:
.weak tsqueryout
tsqueryout:
.weak tsqueryrecv
tsqueryrecv:
.weak tsquerysend
tsquerysend:
.weak tsquerytree
tsquerytree:
.weak tsrange_subdiff
tsrange_subdiff:
.weak tstzrange_subdiff
tstzrange_subdiff:
.weak tsvector_cmp
tsvector_cmp:
.weak tsvector_concat
tsvector_concat:
.weak tsvector_delete_arr
tsvector_delete_arr:
.weak tsvector_delete_str
tsvector_delete_str:
.weak tsvector_eq
tsvector_eq:
.weak tsvector_filter
tsvector_filter:
.weak tsvector_ge
tsvector_ge:
.weak tsvector_gt
tsvector_gt:
.weak tsvector_le
tsvector_le:
.weak tsvector_length
tsvector_length:
.weak tsvector_lt
tsvector_lt:
.weak tsvector_ne
tsvector_ne:
.weak tsvector_setweight
tsvector_setweight:
.weak tsvector_setweight_by_filter
tsvector_setweight_by_filter:
.weak tsvector_strip
tsvector_strip:
.weak tsvector_to_array
tsvector_to_array:
.weak tsvector_unnest
tsvector_unnest:
.weak tsvector_update_trigger_bycolumn
tsvector_update_trigger_bycolumn:
.weak tsvector_update_trigger_byid
tsvector_update_trigger_byid:
.weak tsvectorin
tsvectorin:
.weak tsvectorout
tsvectorout:
.weak tsvectorrecv
tsvectorrecv:
.weak tsvectorsend
tsvectorsend:
.weak tuplehash_create
tuplehash_create:
.weak tuplehash_delete
tuplehash_delete:
.weak tuplehash_delete_item
tuplehash_delete_item:
.weak tuplehash_destroy
tuplehash_destroy:
.weak tuplehash_grow
tuplehash_grow:
.weak tuplehash_insert
tuplehash_insert:
.weak tuplehash_insert_hash
tuplehash_insert_hash:
.weak tuplehash_iterate
tuplehash_iterate:
.weak tuplehash_lookup
tuplehash_lookup:
.weak tuplehash_lookup_hash
tuplehash_lookup_hash:
.weak tuplehash_reset
tuplehash_reset:
.weak tuplehash_start_iterate
tuplehash_start_iterate:
.weak tuplehash_start_iterate_at
tuplehash_start_iterate_at:
.weak tuplehash_stat
tuplehash_stat:
.weak tuplesort_attach_shared
tuplesort_attach_shared:
.weak tuplesort_begin_cluster
tuplesort_begin_cluster:
.weak tuplesort_begin_common
tuplesort_begin_common:
.weak tuplesort_begin_datum
tuplesort_begin_datum:
.weak tuplesort_begin_heap
tuplesort_begin_heap:
.weak tuplesort_begin_index_btree
tuplesort_begin_index_btree:
.weak tuplesort_begin_index_gist
tuplesort_begin_index_gist:
.weak tuplesort_begin_index_hash
tuplesort_begin_index_hash:
.weak tuplesort_end
tuplesort_end:
.weak tuplesort_estimate_shared
tuplesort_estimate_shared:
.weak tuplesort_get_stats
tuplesort_get_stats:
.weak tuplesort_getdatum
tuplesort_getdatum:
.weak tuplesort_getheaptuple
tuplesort_getheaptuple:
.weak tuplesort_getindextuple
tuplesort_getindextuple:
.weak tuplesort_gettuple_common
tuplesort_gettuple_common:
.weak tuplesort_gettupleslot
tuplesort_gettupleslot:
.weak tuplesort_initialize_shared
tuplesort_initialize_shared:
.weak tuplesort_markpos
tuplesort_markpos:
.weak tuplesort_merge_order
tuplesort_merge_order:
.weak tuplesort_method_name
tuplesort_method_name:
.weak tuplesort_performsort
tuplesort_performsort:
.weak tuplesort_putdatum
tuplesort_putdatum:
.weak tuplesort_putheaptuple
tuplesort_putheaptuple:
.weak tuplesort_putindextuplevalues
tuplesort_putindextuplevalues:
.weak tuplesort_puttuple_common
tuplesort_puttuple_common:
.weak tuplesort_puttupleslot
tuplesort_puttupleslot:
.weak tuplesort_readtup_alloc
tuplesort_readtup_alloc:
.weak tuplesort_rescan
tuplesort_rescan:
.weak tuplesort_reset
tuplesort_reset:
.weak tuplesort_restorepos
tuplesort_restorepos:
.weak tuplesort_set_bound
tuplesort_set_bound:
.weak tuplesort_skiptuples
tuplesort_skiptuples:
.weak tuplesort_space_type_name
tuplesort_space_type_name:
.weak tuplesort_used_bound
tuplesort_used_bound:
.weak tuplestore_advance
tuplestore_advance:
.weak tuplestore_alloc_read_pointer
tuplestore_alloc_read_pointer:
.weak tuplestore_ateof
tuplestore_ateof:
.weak tuplestore_begin_heap
tuplestore_begin_heap:
.weak tuplestore_clear
tuplestore_clear:
.weak tuplestore_copy_read_pointer
tuplestore_copy_read_pointer:
.weak tuplestore_end
tuplestore_end:
.weak tuplestore_gettupleslot
tuplestore_gettupleslot:
.weak tuplestore_in_memory
tuplestore_in_memory:
.weak tuplestore_puttuple
tuplestore_puttuple:
.weak tuplestore_puttupleslot
tuplestore_puttupleslot:
.weak tuplestore_putvalues
tuplestore_putvalues:
.weak tuplestore_rescan
tuplestore_rescan:
.weak tuplestore_select_read_pointer
tuplestore_select_read_pointer:
.weak tuplestore_set_eflags
tuplestore_set_eflags:
.weak tuplestore_skiptuples
tuplestore_skiptuples:
.weak tuplestore_trim
tuplestore_trim:
.weak tuplestore_tuple_count
tuplestore_tuple_count:
.weak typeByVal
typeByVal:
.weak typeLen
typeLen:
.weak typeOrDomainTypeRelid
typeOrDomainTypeRelid:
.weak typeStringToTypeName
typeStringToTypeName:
.weak typeTypeCollation
typeTypeCollation:
.weak typeTypeId
typeTypeId:
.weak typeTypeName
typeTypeName:
.weak typeTypeRelid
typeTypeRelid:
.weak type_
type_:
.weak type_is_collatable
type_is_collatable:
.weak type_is_enum
type_is_enum:
.weak type_is_multirange
type_is_multirange:
.weak type_is_range
type_is_range:
.weak type_is_rowtype
type_is_rowtype:
.weak type_maximum_size
type_maximum_size:
.weak typeidType
typeidType:
.weak typeidTypeRelid
typeidTypeRelid:
.weak typenameType
typenameType:
.weak typenameTypeId
typenameTypeId:
.weak typenameTypeIdAndMod
typenameTypeIdAndMod:
.weak uint32in_subr
uint32in_subr:
.weak uint64in_subr
uint64in_subr:
.weak unicode_is_normalized
unicode_is_normalized:
.weak unicode_normalize_func
unicode_normalize_func:
.weak unicode_to_utf8
unicode_to_utf8:
.weak unique_key_recheck
unique_key_recheck:
.weak unistr
unistr:
.weak unknownin
unknownin:
.weak unknownout
unknownout:
.weak unknownrecv
unknownrecv:
.weak unknownsend
unknownsend:
.weak unpack_sql_state
unpack_sql_state:
.weak unregister_ENR
unregister_ENR:
.weak untransformRelOptions
untransformRelOptions:
.weak unused
unused:
.weak updateAclDependencies
updateAclDependencies:
.weak updateClosestMatch
updateClosestMatch:
.weak update_controlfile
update_controlfile:
.weak update_mergeclause_eclasses
update_mergeclause_eclasses:
.weak update_spins_per_delay
update_spins_per_delay:
.weak upper
upper:
.weak utf8_to_unicode
utf8_to_unicode:
.weak uuid_cmp
uuid_cmp:
.weak uuid_eq
uuid_eq:
.weak uuid_ge
uuid_ge:
.weak uuid_gt
uuid_gt:
.weak uuid_hash
uuid_hash:
.weak uuid_hash_extended
uuid_hash_extended:
.weak uuid_in
uuid_in:
.weak uuid_le
uuid_le:
.weak uuid_lt
uuid_lt:
.weak uuid_ne
uuid_ne:
.weak uuid_out
uuid_out:
.weak uuid_recv
uuid_recv:
.weak uuid_send
uuid_send:
.weak uuid_sortsupport
uuid_sortsupport:
.weak vac_bulkdel_one_index
vac_bulkdel_one_index:
.weak vac_cleanup_one_index
vac_cleanup_one_index:
.weak vac_close_indexes
vac_close_indexes:
.weak vac_estimate_reltuples
vac_estimate_reltuples:
.weak vac_max_items_to_alloc_size
vac_max_items_to_alloc_size:
.weak vac_open_indexes
vac_open_indexes:
.weak vac_update_datfrozenxid
vac_update_datfrozenxid:
.weak vac_update_relstats
vac_update_relstats:
.weak vacuum
vacuum:
.weak vacuum_delay_point
vacuum_delay_point:
.weak vacuum_get_cutoffs
vacuum_get_cutoffs:
.weak vacuum_is_relation_owner
vacuum_is_relation_owner:
.weak vacuum_open_relation
vacuum_open_relation:
.weak vacuum_xid_failsafe_check
vacuum_xid_failsafe_check:
.weak validate_exec
validate_exec:
.weak validate_index
validate_index:
.weak var_eq_const
var_eq_const:
.weak var_eq_non_const
var_eq_non_const:
.weak varbit
varbit:
.weak varbit_in
varbit_in:
.weak varbit_out
varbit_out:
.weak varbit_recv
varbit_recv:
.weak varbit_send
varbit_send:
.weak varbit_support
varbit_support:
.weak varbittypmodin
varbittypmodin:
.weak varbittypmodout
varbittypmodout:
.weak varchar
varchar:
.weak varchar_support
varchar_support:
.weak varcharin
varcharin:
.weak varcharout
varcharout:
.weak varcharrecv
varcharrecv:
.weak varcharsend
varcharsend:
.weak varchartypmodin
varchartypmodin:
.weak varchartypmodout
varchartypmodout:
.weak varstr_cmp
varstr_cmp:
.weak varstr_levenshtein
varstr_levenshtein:
.weak varstr_levenshtein_less_equal
varstr_levenshtein_less_equal:
.weak varstr_sortsupport
varstr_sortsupport:
.weak verify_common_type
verify_common_type:
.weak view_query_is_auto_updatable
view_query_is_auto_updatable:
.weak view_reloptions
view_reloptions:
.weak visibilitymap_clear
visibilitymap_clear:
.weak visibilitymap_count
visibilitymap_count:
.weak visibilitymap_get_status
visibilitymap_get_status:
.weak visibilitymap_pin
visibilitymap_pin:
.weak visibilitymap_pin_ok
visibilitymap_pin_ok:
.weak visibilitymap_prepare_truncate
visibilitymap_prepare_truncate:
.weak visibilitymap_set
visibilitymap_set:
.weak void_in
void_in:
.weak void_out
void_out:
.weak void_recv
void_recv:
.weak void_send
void_send:
.weak vwrite_stderr
vwrite_stderr:
.weak wait_result_is_any_signal
wait_result_is_any_signal:
.weak wait_result_is_signal
wait_result_is_signal:
.weak wait_result_to_exit_code
wait_result_to_exit_code:
.weak wait_result_to_str
wait_result_to_str:
.weak wal_segment_close
wal_segment_close:
.weak wal_segment_open
wal_segment_open:
.weak walrcv_clear_result
walrcv_clear_result:
.weak websearch_to_tsquery
websearch_to_tsquery:
.weak websearch_to_tsquery_byid
websearch_to_tsquery_byid:
.weak width_bucket_array
width_bucket_array:
.weak width_bucket_float8
width_bucket_float8:
.weak width_bucket_numeric
width_bucket_numeric:
.weak window_cume_dist
window_cume_dist:
.weak window_cume_dist_support
window_cume_dist_support:
.weak window_dense_rank
window_dense_rank:
.weak window_dense_rank_support
window_dense_rank_support:
.weak window_first_value
window_first_value:
.weak window_lag
window_lag:
.weak window_lag_with_offset
window_lag_with_offset:
.weak window_lag_with_offset_and_default
window_lag_with_offset_and_default:
.weak window_last_value
window_last_value:
.weak window_lead
window_lead:
.weak window_lead_with_offset
window_lead_with_offset:
.weak window_lead_with_offset_and_default
window_lead_with_offset_and_default:
.weak window_nth_value
window_nth_value:
.weak window_ntile
window_ntile:
.weak window_ntile_support
window_ntile_support:
.weak window_percent_rank
window_percent_rank:
.weak window_percent_rank_support
window_percent_rank_support:
.weak window_rank
window_rank:
.weak window_rank_support
window_rank_support:
.weak window_row_number
window_row_number:
.weak window_row_number_support
window_row_number_support:
.weak write_csvlog
write_csvlog:
.weak write_jsonlog
write_jsonlog:
.weak write_pipe_chunks
write_pipe_chunks:
.weak write_stderr
write_stderr:
.weak write_stderr_signal_safe
write_stderr_signal_safe:
.weak write_syslogger_file
write_syslogger_file:
.weak xactGetCommittedChildren
xactGetCommittedChildren:
.weak xactGetCommittedInvalidationMessages
xactGetCommittedInvalidationMessages:
.weak xact_desc
xact_desc:
.weak xact_identify
xact_identify:
.weak xact_redo
xact_redo:
.weak xid8_larger
xid8_larger:
.weak xid8_smaller
xid8_smaller:
.weak xid8cmp
xid8cmp:
.weak xid8eq
xid8eq:
.weak xid8ge
xid8ge:
.weak xid8gt
xid8gt:
.weak xid8in
xid8in:
.weak xid8le
xid8le:
.weak xid8lt
xid8lt:
.weak xid8ne
xid8ne:
.weak xid8out
xid8out:
.weak xid8recv
xid8recv:
.weak xid8send
xid8send:
.weak xid8toxid
xid8toxid:
.weak xidComparator
xidComparator:
.weak xidLogicalComparator
xidLogicalComparator:
.weak xid_age
xid_age:
.weak xideq
xideq:
.weak xidin
xidin:
.weak xidneq
xidneq:
.weak xidout
xidout:
.weak xidrecv
xidrecv:
.weak xidsend
xidsend:
.weak xlog_desc
xlog_desc:
.weak xlog_identify
xlog_identify:
.weak xlog_outdesc
xlog_outdesc:
.weak xlog_redo
xlog_redo:
.weak xml_in
xml_in:
.weak xml_is_well_formed
xml_is_well_formed:
.weak xml_is_well_formed_content
xml_is_well_formed_content:
.weak xml_is_well_formed_document
xml_is_well_formed_document:
.weak xml_out
xml_out:
.weak xml_recv
xml_recv:
.weak xml_send
xml_send:
.weak xmlcomment
xmlcomment:
.weak xmlconcat2
xmlconcat2:
.weak xmlexists
xmlexists:
.weak xmltotext
xmltotext:
.weak xmlvalidate
xmlvalidate:
.weak xpath
xpath:
.weak xpath_exists
xpath_exists:
ud2
.section .data.pgstubs,"aw",@progbits
.balign 16
.weak ActivePortal
ActivePortal:
.zero 64
.weak ArchiveRecoveryRequested
ArchiveRecoveryRequested:
.zero 64
.weak Array_nulls
Array_nulls:
.zero 64
.weak AuthenticationTimeout
AuthenticationTimeout:
.zero 64
.weak AuxProcessResourceOwner
AuxProcessResourceOwner:
.zero 64
.weak BackendWritebackContext
BackendWritebackContext:
.zero 64
.weak BufferBlocks
BufferBlocks:
.zero 64
.weak BufferDescriptors
BufferDescriptors:
.zero 64
.weak BufferIOCVArray
BufferIOCVArray:
.zero 64
.weak CacheMemoryContext
CacheMemoryContext:
.zero 64
.weak CatalogSnapshotData
CatalogSnapshotData:
.zero 64
.weak CheckClientConnectionPending
CheckClientConnectionPending:
.zero 64
.weak CheckPointSegments
CheckPointSegments:
.zero 64
.weak CheckXidAlive
CheckXidAlive:
.zero 64
.weak CheckpointStats
CheckpointStats:
.zero 64
.weak CkptBufferIds
CkptBufferIds:
.zero 64
.weak ClientAuthInProgress
ClientAuthInProgress:
.zero 64
.weak ClientConnectionLost
ClientConnectionLost:
.zero 64
.weak ConfigFileName
ConfigFileName:
.zero 64
.weak ConfigReloadPending
ConfigReloadPending:
.zero 64
.weak ConfigureNamesBool
ConfigureNamesBool:
.zero 64
.weak ConfigureNamesEnum
ConfigureNamesEnum:
.zero 64
.weak ConfigureNamesInt
ConfigureNamesInt:
.zero 64
.weak ConfigureNamesReal
ConfigureNamesReal:
.zero 64
.weak ConfigureNamesString
ConfigureNamesString:
.zero 64
.weak CurTransactionContext
CurTransactionContext:
.zero 64
.weak CurTransactionResourceOwner
CurTransactionResourceOwner:
.zero 64
.weak CurrentExtensionObject
CurrentExtensionObject:
.zero 64
.weak CurrentResourceOwner
CurrentResourceOwner:
.zero 64
.weak DataDir
DataDir:
.zero 64
.weak DatabasePath
DatabasePath:
.zero 64
.weak DateOrder
DateOrder:
.zero 64
.weak DateStyle
DateStyle:
.zero 64
.weak Db_user_namespace
Db_user_namespace:
.zero 64
.weak DeadlockTimeout
DeadlockTimeout:
.zero 64
.weak Debug_pretty_print
Debug_pretty_print:
.zero 64
.weak Debug_print_parse
Debug_print_parse:
.zero 64
.weak Debug_print_plan
Debug_print_plan:
.zero 64
.weak Debug_print_rewritten
Debug_print_rewritten:
.zero 64
.weak DefaultXactDeferrable
DefaultXactDeferrable:
.zero 64
.weak DefaultXactIsoLevel
DefaultXactIsoLevel:
.zero 64
.weak DefaultXactReadOnly
DefaultXactReadOnly:
.zero 64
.weak Dynamic_library_path
Dynamic_library_path:
.zero 64
.weak EnableHotStandby
EnableHotStandby:
.zero 64
.weak EnableSSL
EnableSSL:
.zero 64
.weak ExecutorCheckPerms_hook
ExecutorCheckPerms_hook:
.zero 64
.weak ExecutorEnd_hook
ExecutorEnd_hook:
.zero 64
.weak ExecutorFinish_hook
ExecutorFinish_hook:
.zero 64
.weak ExecutorRun_hook
ExecutorRun_hook:
.zero 64
.weak ExecutorStart_hook
ExecutorStart_hook:
.zero 64
.weak ExitOnAnyError
ExitOnAnyError:
.zero 64
.weak ExplainOneQuery_hook
ExplainOneQuery_hook:
.zero 64
.weak FirstSnapshotSet
FirstSnapshotSet:
.zero 64
.weak GUC_check_errdetail_string
GUC_check_errdetail_string:
.zero 64
.weak GUC_check_errhint_string
GUC_check_errhint_string:
.zero 64
.weak GUC_check_errmsg_string
GUC_check_errmsg_string:
.zero 64
.weak GinFuzzySearchLimit
GinFuzzySearchLimit:
.zero 64
.weak GucContext_Names
GucContext_Names:
.zero 64
.weak GucSource_Names
GucSource_Names:
.zero 64
.weak HbaFileName
HbaFileName:
.zero 64
.weak IdentFileName
IdentFileName:
.zero 64
.weak IdleInTransactionSessionTimeout
IdleInTransactionSessionTimeout:
.zero 64
.weak IdleInTransactionSessionTimeoutPending
IdleInTransactionSessionTimeoutPending:
.zero 64
.weak IdleSessionTimeout
IdleSessionTimeout:
.zero 64
.weak IdleSessionTimeoutPending
IdleSessionTimeoutPending:
.zero 64
.weak IdleStatsUpdateTimeoutPending
IdleStatsUpdateTimeoutPending:
.zero 64
.weak IgnoreSystemIndexes
IgnoreSystemIndexes:
.zero 64
.weak InArchiveRecovery
InArchiveRecovery:
.zero 64
.weak InRecovery
InRecovery:
.zero 64
.weak InitializingParallelWorker
InitializingParallelWorker:
.zero 64
.weak InterruptPending
InterruptPending:
.zero 64
.weak IntervalStyle
IntervalStyle:
.zero 64
.weak InvalidObjectAddress
InvalidObjectAddress:
.zero 64
.weak IsBackgroundWorker
IsBackgroundWorker:
.zero 64
.weak IsBinaryUpgrade
IsBinaryUpgrade:
.zero 64
.weak IsPostmasterEnvironment
IsPostmasterEnvironment:
.zero 64
.weak IsUnderPostmaster
IsUnderPostmaster:
.zero 64
.weak ListenAddresses
ListenAddresses:
.zero 64
.weak LocalBufferBlockPointers
LocalBufferBlockPointers:
.zero 64
.weak LocalBufferDescriptors
LocalBufferDescriptors:
.zero 64
.weak LocalRefCount
LocalRefCount:
.zero 64
.weak LockTagTypeNames
LockTagTypeNames:
.zero 64
.weak LockTimeout
LockTimeout:
.zero 64
.weak LogMemoryContextPending
LogMemoryContextPending:
.zero 64
.weak Log_RotationAge
Log_RotationAge:
.zero 64
.weak Log_RotationSize
Log_RotationSize:
.zero 64
.weak Log_connections
Log_connections:
.zero 64
.weak Log_destination
Log_destination:
.zero 64
.weak Log_destination_string
Log_destination_string:
.zero 64
.weak Log_directory
Log_directory:
.zero 64
.weak Log_error_verbosity
Log_error_verbosity:
.zero 64
.weak Log_file_mode
Log_file_mode:
.zero 64
.weak Log_filename
Log_filename:
.zero 64
.weak Log_line_prefix
Log_line_prefix:
.zero 64
.weak Log_truncate_on_rotation
Log_truncate_on_rotation:
.zero 64
.weak Logging_collector
Logging_collector:
.zero 64
.weak MainLWLockArray
MainLWLockArray:
.zero 64
.weak MaxBackends
MaxBackends:
.zero 64
.weak MaxConnections
MaxConnections:
.zero 64
.weak MessageContext
MessageContext:
.zero 64
.weak Mode
Mode:
.zero 64
.weak MyAuxProcType
MyAuxProcType:
.zero 64
.weak MyBEEntry
MyBEEntry:
.zero 64
.weak MyBackendId
MyBackendId:
.zero 64
.weak MyBackendType
MyBackendType:
.zero 64
.weak MyBgworkerEntry
MyBgworkerEntry:
.zero 64
.weak MyCancelKey
MyCancelKey:
.zero 64
.weak MyDatabaseId
MyDatabaseId:
.zero 64
.weak MyDatabaseTableSpace
MyDatabaseTableSpace:
.zero 64
.weak MyLatch
MyLatch:
.zero 64
.weak MyPMChildSlot
MyPMChildSlot:
.zero 64
.weak MyProc
MyProc:
.zero 64
.weak MyProcPid
MyProcPid:
.zero 64
.weak MyProcPort
MyProcPort:
.zero 64
.weak MyReplicationSlot
MyReplicationSlot:
.zero 64
.weak MyStartTime
MyStartTime:
.zero 64
.weak MyStartTimestamp
MyStartTimestamp:
.zero 64
.weak MyWalSnd
MyWalSnd:
.zero 64
.weak MyXactFlags
MyXactFlags:
.zero 64
.weak NBuffers
NBuffers:
.zero 64
.weak NLocBuffer
NLocBuffer:
.zero 64
.weak NamedLWLockTrancheArray
NamedLWLockTrancheArray:
.zero 64
.weak NamedLWLockTrancheRequests
NamedLWLockTrancheRequests:
.zero 64
.weak None_Receiver
None_Receiver:
.zero 64
.weak OutputFileName
OutputFileName:
.zero 64
.weak ParallelApplyMessagePending
ParallelApplyMessagePending:
.zero 64
.weak ParallelLeaderBackendId
ParallelLeaderBackendId:
.zero 64
.weak ParallelMessagePending
ParallelMessagePending:
.zero 64
.weak ParallelWorkerNumber
ParallelWorkerNumber:
.zero 64
.weak Password_encryption
Password_encryption:
.zero 64
.weak PendingBgWriterStats
PendingBgWriterStats:
.zero 64
.weak PendingCheckpointerStats
PendingCheckpointerStats:
.zero 64
.weak PendingWalStats
PendingWalStats:
.zero 64
.weak PgReloadTime
PgReloadTime:
.zero 64
.weak PgStartTime
PgStartTime:
.zero 64
.weak PortalContext
PortalContext:
.zero 64
.weak PostAuthDelay
PostAuthDelay:
.zero 64
.weak PostPortNumber
PostPortNumber:
.zero 64
.weak PostmasterContext
PostmasterContext:
.zero 64
.weak PostmasterPid
PostmasterPid:
.zero 64
.weak PreAuthDelay
PreAuthDelay:
.zero 64
.weak PreparedXactProcs
PreparedXactProcs:
.zero 64
.weak PrimaryConnInfo
PrimaryConnInfo:
.zero 64
.weak PrimarySlotName
PrimarySlotName:
.zero 64
.weak ProcDiePending
ProcDiePending:
.zero 64
.weak ProcGlobal
ProcGlobal:
.zero 64
.weak ProcLastRecPtr
ProcLastRecPtr:
.zero 64
.weak ProcSignalBarrierPending
ProcSignalBarrierPending:
.zero 64
.weak ProcessUtility_hook
ProcessUtility_hook:
.zero 64
.weak QueryCancelPending
QueryCancelPending:
.zero 64
.weak RecentXmin
RecentXmin:
.zero 64
.weak ReplicationSlotCtl
ReplicationSlotCtl:
.zero 64
.weak ReservedConnections
ReservedConnections:
.zero 64
.weak RmgrTable
RmgrTable:
.zero 64
.weak SPI_processed
SPI_processed:
.zero 64
.weak SPI_result
SPI_result:
.zero 64
.weak SPI_tuptable
SPI_tuptable:
.zero 64
.weak ScanKeywordBareLabel
ScanKeywordBareLabel:
.zero 64
.weak ScanKeywordCategories
ScanKeywordCategories:
.zero 64
.weak ScanKeywordTokens
ScanKeywordTokens:
.zero 64
.weak ScanKeywords
ScanKeywords:
.zero 64
.weak SessionReplicationRole
SessionReplicationRole:
.zero 64
.weak SharedInvalidMessageCounter
SharedInvalidMessageCounter:
.zero 64
.weak ShmemVariableCache
ShmemVariableCache:
.zero 64
.weak ShutdownRequestPending
ShutdownRequestPending:
.zero 64
.weak SnapshotAnyData
SnapshotAnyData:
.zero 64
.weak SnapshotSelfData
SnapshotSelfData:
.zero 64
.weak StandbyMode
StandbyMode:
.zero 64
.weak StatementTimeout
StatementTimeout:
.zero 64
.weak SuperuserReservedConnections
SuperuserReservedConnections:
.zero 64
.weak SyncRepConfig
SyncRepConfig:
.zero 64
.weak SyncRepStandbyNames
SyncRepStandbyNames:
.zero 64
.weak TSCurrentConfig
TSCurrentConfig:
.zero 64
.weak TTSOpsBufferHeapTuple
TTSOpsBufferHeapTuple:
.zero 64
.weak TTSOpsHeapTuple
TTSOpsHeapTuple:
.zero 64
.weak TTSOpsMinimalTuple
TTSOpsMinimalTuple:
.zero 64
.weak TTSOpsVirtual
TTSOpsVirtual:
.zero 64
.weak TopTransactionContext
TopTransactionContext:
.zero 64
.weak TopTransactionResourceOwner
TopTransactionResourceOwner:
.zero 64
.weak TransactionXmin
TransactionXmin:
.zero 64
.weak Transform_null_equals
Transform_null_equals:
.zero 64
.weak Unix_socket_directories
Unix_socket_directories:
.zero 64
.weak Unix_socket_group
Unix_socket_group:
.zero 64
.weak Unix_socket_permissions
Unix_socket_permissions:
.zero 64
.weak VacuumActiveNWorkers
VacuumActiveNWorkers:
.zero 64
.weak VacuumBufferUsageLimit
VacuumBufferUsageLimit:
.zero 64
.weak VacuumCostActive
VacuumCostActive:
.zero 64
.weak VacuumCostBalance
VacuumCostBalance:
.zero 64
.weak VacuumCostBalanceLocal
VacuumCostBalanceLocal:
.zero 64
.weak VacuumCostDelay
VacuumCostDelay:
.zero 64
.weak VacuumCostLimit
VacuumCostLimit:
.zero 64
.weak VacuumCostPageDirty
VacuumCostPageDirty:
.zero 64
.weak VacuumCostPageHit
VacuumCostPageHit:
.zero 64
.weak VacuumCostPageMiss
VacuumCostPageMiss:
.zero 64
.weak VacuumFailsafeActive
VacuumFailsafeActive:
.zero 64
.weak VacuumPageDirty
VacuumPageDirty:
.zero 64
.weak VacuumPageHit
VacuumPageHit:
.zero 64
.weak VacuumPageMiss
VacuumPageMiss:
.zero 64
.weak VacuumSharedCostBalance
VacuumSharedCostBalance:
.zero 64
.weak WalRcv
WalRcv:
.zero 64
.weak WalRcvIdentifySystemLsn
WalRcvIdentifySystemLsn:
.zero 64
.weak WalReceiverFunctions
WalReceiverFunctions:
.zero 64
.weak WalSndCtl
WalSndCtl:
.zero 64
.weak XLOGbuffers
XLOGbuffers:
.zero 64
.weak XLogArchiveCommand
XLogArchiveCommand:
.zero 64
.weak XLogArchiveMode
XLogArchiveMode:
.zero 64
.weak XLogArchiveTimeout
XLogArchiveTimeout:
.zero 64
.weak XactDeferrable
XactDeferrable:
.zero 64
.weak XactIsoLevel
XactIsoLevel:
.zero 64
.weak XactLastCommitEnd
XactLastCommitEnd:
.zero 64
.weak XactLastRecEnd
XactLastRecEnd:
.zero 64
.weak XactReadOnly
XactReadOnly:
.zero 64
.weak allowSystemTableMods
allowSystemTableMods:
.zero 64
.weak allow_in_place_tablespaces
allow_in_place_tablespaces:
.zero 64
.weak am_cascading_walsender
am_cascading_walsender:
.zero 64
.weak am_db_walsender
am_db_walsender:
.zero 64
.weak am_walsender
am_walsender:
.zero 64
.weak application_name
application_name:
.zero 64
.weak archiveCleanupCommand
archiveCleanupCommand:
.zero 64
.weak backend_flush_after
backend_flush_after:
.zero 64
.weak backslash_quote
backslash_quote:
.zero 64
.weak backtrace_functions
backtrace_functions:
.zero 64
.weak bgwriter_flush_after
bgwriter_flush_after:
.zero 64
.weak bgwriter_lru_maxpages
bgwriter_lru_maxpages:
.zero 64
.weak bgwriter_lru_multiplier
bgwriter_lru_multiplier:
.zero 64
.weak bonjour_name
bonjour_name:
.zero 64
.weak bsysscan
bsysscan:
.zero 64
.weak cached_db_hash
cached_db_hash:
.zero 64
.weak catchupInterruptPending
catchupInterruptPending:
.zero 64
.weak check_function_bodies
check_function_bodies:
.zero 64
.weak check_password_hook
check_password_hook:
.zero 64
.weak checkpoint_flush_after
checkpoint_flush_after:
.zero 64
.weak client_connection_check_interval
client_connection_check_interval:
.zero 64
.weak client_min_messages
client_min_messages:
.zero 64
.weak cluster_name
cluster_name:
.zero 64
.weak compute_query_id
compute_query_id:
.zero 64
.weak config_group_names
config_group_names:
.zero 64
.weak config_type_names
config_type_names:
.zero 64
.weak constraint_exclusion
constraint_exclusion:
.zero 64
.weak cpu_index_tuple_cost
cpu_index_tuple_cost:
.zero 64
.weak cpu_operator_cost
cpu_operator_cost:
.zero 64
.weak cpu_tuple_cost
cpu_tuple_cost:
.zero 64
.weak create_upper_paths_hook
create_upper_paths_hook:
.zero 64
.weak createrole_self_grant
createrole_self_grant:
.zero 64
.weak creating_extension
creating_extension:
.zero 64
.weak criticalRelcachesBuilt
criticalRelcachesBuilt:
.zero 64
.weak criticalSharedRelcachesBuilt
criticalSharedRelcachesBuilt:
.zero 64
.weak cursor_tuple_fraction
cursor_tuple_fraction:
.zero 64
.weak data_directory_mode
data_directory_mode:
.zero 64
.weak data_sync_retry
data_sync_retry:
.zero 64
.weak day_tab
day_tab:
.zero 64
.weak days
days:
.zero 64
.weak debug_discard_caches
debug_discard_caches:
.zero 64
.weak debug_logical_replication_streaming
debug_logical_replication_streaming:
.zero 64
.weak debug_parallel_query
debug_parallel_query:
.zero 64
.weak debug_query_string
debug_query_string:
.zero 64
.weak default_statistics_target
default_statistics_target:
.zero 64
.weak default_table_access_method
default_table_access_method:
.zero 64
.weak disable_cost
disable_cost:
.zero 64
.weak dummy_spinlock
dummy_spinlock:
.zero 64
.weak dynamic_shared_memory_type
dynamic_shared_memory_type:
.zero 64
.weak effective_cache_size
effective_cache_size:
.zero 64
.weak effective_io_concurrency
effective_io_concurrency:
.zero 64
.weak emit_log_hook
emit_log_hook:
.zero 64
.weak enableFsync
enableFsync:
.zero 64
.weak enable_async_append
enable_async_append:
.zero 64
.weak enable_bitmapscan
enable_bitmapscan:
.zero 64
.weak enable_bonjour
enable_bonjour:
.zero 64
.weak enable_gathermerge
enable_gathermerge:
.zero 64
.weak enable_geqo
enable_geqo:
.zero 64
.weak enable_hashagg
enable_hashagg:
.zero 64
.weak enable_hashjoin
enable_hashjoin:
.zero 64
.weak enable_incremental_sort
enable_incremental_sort:
.zero 64
.weak enable_indexonlyscan
enable_indexonlyscan:
.zero 64
.weak enable_indexscan
enable_indexscan:
.zero 64
.weak enable_material
enable_material:
.zero 64
.weak enable_memoize
enable_memoize:
.zero 64
.weak enable_mergejoin
enable_mergejoin:
.zero 64
.weak enable_nestloop
enable_nestloop:
.zero 64
.weak enable_parallel_append
enable_parallel_append:
.zero 64
.weak enable_parallel_hash
enable_parallel_hash:
.zero 64
.weak enable_partition_pruning
enable_partition_pruning:
.zero 64
.weak enable_partitionwise_aggregate
enable_partitionwise_aggregate:
.zero 64
.weak enable_partitionwise_join
enable_partitionwise_join:
.zero 64
.weak enable_presorted_aggregate
enable_presorted_aggregate:
.zero 64
.weak enable_seqscan
enable_seqscan:
.zero 64
.weak enable_sort
enable_sort:
.zero 64
.weak enable_tidscan
enable_tidscan:
.zero 64
.weak escape_string_warning
escape_string_warning:
.zero 64
.weak explain_get_index_name_hook
explain_get_index_name_hook:
.zero 64
.weak extension_destdir
extension_destdir:
.zero 64
.weak external_pid_file
external_pid_file:
.zero 64
.weak extra_float_digits
extra_float_digits:
.zero 64
.weak file_extend_method
file_extend_method:
.zero 64
.weak fmgr_hook
fmgr_hook:
.zero 64
.weak forkNames
forkNames:
.zero 64
.weak from_collapse_limit
from_collapse_limit:
.zero 64
.weak fullPageWrites
fullPageWrites:
.zero 64
.weak geqo_threshold
geqo_threshold:
.zero 64
.weak get_attavgwidth_hook
get_attavgwidth_hook:
.zero 64
.weak get_index_stats_hook
get_index_stats_hook:
.zero 64
.weak get_relation_info_hook
get_relation_info_hook:
.zero 64
.weak get_relation_stats_hook
get_relation_stats_hook:
.zero 64
.weak gin_pending_list_limit
gin_pending_list_limit:
.zero 64
.weak hash_mem_multiplier
hash_mem_multiplier:
.zero 64
.weak hot_standby_feedback
hot_standby_feedback:
.zero 64
.weak io_direct_flags
io_direct_flags:
.zero 64
.weak jit_above_cost
jit_above_cost:
.zero 64
.weak jit_debugging_support
jit_debugging_support:
.zero 64
.weak jit_dump_bitcode
jit_dump_bitcode:
.zero 64
.weak jit_enabled
jit_enabled:
.zero 64
.weak jit_expressions
jit_expressions:
.zero 64
.weak jit_inline_above_cost
jit_inline_above_cost:
.zero 64
.weak jit_optimize_above_cost
jit_optimize_above_cost:
.zero 64
.weak jit_profiling_support
jit_profiling_support:
.zero 64
.weak jit_provider
jit_provider:
.zero 64
.weak jit_tuple_deforming
jit_tuple_deforming:
.zero 64
.weak join_collapse_limit
join_collapse_limit:
.zero 64
.weak join_search_hook
join_search_hook:
.zero 64
.weak local_preload_libraries_string
local_preload_libraries_string:
.zero 64
.weak log_btree_build_stats
log_btree_build_stats:
.zero 64
.weak log_checkpoints
log_checkpoints:
.zero 64
.weak log_duration
log_duration:
.zero 64
.weak log_executor_stats
log_executor_stats:
.zero 64
.weak log_hostname
log_hostname:
.zero 64
.weak log_lock_waits
log_lock_waits:
.zero 64
.weak log_min_duration_sample
log_min_duration_sample:
.zero 64
.weak log_min_duration_statement
log_min_duration_statement:
.zero 64
.weak log_min_error_statement
log_min_error_statement:
.zero 64
.weak log_min_messages
log_min_messages:
.zero 64
.weak log_parameter_max_length
log_parameter_max_length:
.zero 64
.weak log_parameter_max_length_on_error
log_parameter_max_length_on_error:
.zero 64
.weak log_parser_stats
log_parser_stats:
.zero 64
.weak log_planner_stats
log_planner_stats:
.zero 64
.weak log_recovery_conflict_waits
log_recovery_conflict_waits:
.zero 64
.weak log_replication_commands
log_replication_commands:
.zero 64
.weak log_statement
log_statement:
.zero 64
.weak log_statement_sample_rate
log_statement_sample_rate:
.zero 64
.weak log_statement_stats
log_statement_stats:
.zero 64
.weak log_temp_files
log_temp_files:
.zero 64
.weak log_timezone
log_timezone:
.zero 64
.weak log_xact_sample_rate
log_xact_sample_rate:
.zero 64
.weak logical_decoding_work_mem
logical_decoding_work_mem:
.zero 64
.weak maintenance_io_concurrency
maintenance_io_concurrency:
.zero 64
.weak maintenance_work_mem
maintenance_work_mem:
.zero 64
.weak max_files_per_process
max_files_per_process:
.zero 64
.weak max_locks_per_xact
max_locks_per_xact:
.zero 64
.weak max_parallel_maintenance_workers
max_parallel_maintenance_workers:
.zero 64
.weak max_parallel_workers
max_parallel_workers:
.zero 64
.weak max_parallel_workers_per_gather
max_parallel_workers_per_gather:
.zero 64
.weak max_replication_slots
max_replication_slots:
.zero 64
.weak max_safe_fds
max_safe_fds:
.zero 64
.weak max_slot_wal_keep_size_mb
max_slot_wal_keep_size_mb:
.zero 64
.weak max_stack_depth
max_stack_depth:
.zero 64
.weak max_standby_archive_delay
max_standby_archive_delay:
.zero 64
.weak max_standby_streaming_delay
max_standby_streaming_delay:
.zero 64
.weak max_wal_senders
max_wal_senders:
.zero 64
.weak max_wal_size_mb
max_wal_size_mb:
.zero 64
.weak max_worker_processes
max_worker_processes:
.zero 64
.weak min_dynamic_shared_memory
min_dynamic_shared_memory:
.zero 64
.weak min_parallel_index_scan_size
min_parallel_index_scan_size:
.zero 64
.weak min_parallel_table_scan_size
min_parallel_table_scan_size:
.zero 64
.weak min_wal_size_mb
min_wal_size_mb:
.zero 64
.weak months
months:
.zero 64
.weak my_exec_path
my_exec_path:
.zero 64
.weak my_wait_event_info
my_wait_event_info:
.zero 64
.weak namespace_search_path
namespace_search_path:
.zero 64
.weak needs_fmgr_hook
needs_fmgr_hook:
.zero 64
.weak no_such_variable
no_such_variable:
.zero 64
.weak num_temp_buffers
num_temp_buffers:
.zero 64
.weak object_access_hook
object_access_hook:
.zero 64
.weak object_access_hook_str
object_access_hook_str:
.zero 64
.weak old_snapshot_threshold
old_snapshot_threshold:
.zero 64
.weak output_plugin_libraries_string
output_plugin_libraries_string:
.zero 64
.weak parallel_leader_participation
parallel_leader_participation:
.zero 64
.weak parallel_setup_cost
parallel_setup_cost:
.zero 64
.weak parallel_tuple_cost
parallel_tuple_cost:
.zero 64
.weak pgBufferUsage
pgBufferUsage:
.zero 64
.weak pgStatActiveTime
pgStatActiveTime:
.zero 64
.weak pgStatBlockReadTime
pgStatBlockReadTime:
.zero 64
.weak pgStatBlockWriteTime
pgStatBlockWriteTime:
.zero 64
.weak pgStatSessionEndCause
pgStatSessionEndCause:
.zero 64
.weak pgStatTransactionIdleTime
pgStatTransactionIdleTime:
.zero 64
.weak pgWalUsage
pgWalUsage:
.zero 64
.weak pg_comp_crc32c
pg_comp_crc32c:
.zero 64
.weak pg_enc2gettext_tbl
pg_enc2gettext_tbl:
.zero 64
.weak pg_enc2name_tbl
pg_enc2name_tbl:
.zero 64
.weak pg_global_prng_state
pg_global_prng_state:
.zero 64
.weak pg_leftmost_one_pos
pg_leftmost_one_pos:
.zero 64
.weak pg_number_of_ones
pg_number_of_ones:
.zero 64
.weak pg_popcount32
pg_popcount32:
.zero 64
.weak pg_popcount64
pg_popcount64:
.zero 64
.weak pg_rightmost_one_pos
pg_rightmost_one_pos:
.zero 64
.weak pg_wchar_table
pg_wchar_table:
.zero 64
.weak pgstat_fetch_consistency
pgstat_fetch_consistency:
.zero 64
.weak pgstat_track_activities
pgstat_track_activities:
.zero 64
.weak pgstat_track_activity_query_size
pgstat_track_activity_query_size:
.zero 64
.weak pgstat_track_counts
pgstat_track_counts:
.zero 64
.weak pgstat_track_functions
pgstat_track_functions:
.zero 64
.weak pkglib_path
pkglib_path:
.zero 64
.weak plan_cache_mode
plan_cache_mode:
.zero 64
.weak planner_hook
planner_hook:
.zero 64
.weak plpgsql_Datums
plpgsql_Datums:
.zero 64
.weak plpgsql_DumpExecTree
plpgsql_DumpExecTree:
.zero 64
.weak plpgsql_IdentifierLookup
plpgsql_IdentifierLookup:
.zero 64
.weak plpgsql_check_asserts
plpgsql_check_asserts:
.zero 64
.weak plpgsql_check_syntax
plpgsql_check_syntax:
.zero 64
.weak plpgsql_compile_tmp_cxt
plpgsql_compile_tmp_cxt:
.zero 64
.weak plpgsql_curr_compile
plpgsql_curr_compile:
.zero 64
.weak plpgsql_error_funcname
plpgsql_error_funcname:
.zero 64
.weak plpgsql_extra_errors
plpgsql_extra_errors:
.zero 64
.weak plpgsql_extra_warnings
plpgsql_extra_warnings:
.zero 64
.weak plpgsql_nDatums
plpgsql_nDatums:
.zero 64
.weak plpgsql_parse_result
plpgsql_parse_result:
.zero 64
.weak plpgsql_plugin_ptr
plpgsql_plugin_ptr:
.zero 64
.weak plpgsql_print_strict_params
plpgsql_print_strict_params:
.zero 64
.weak plpgsql_variable_conflict
plpgsql_variable_conflict:
.zero 64
.weak post_parse_analyze_hook
post_parse_analyze_hook:
.zero 64
.weak postmaster_alive_fds
postmaster_alive_fds:
.zero 64
.weak proc_exit_inprogress
proc_exit_inprogress:
.zero 64
.weak process_shared_preload_libraries_done
process_shared_preload_libraries_done:
.zero 64
.weak process_shared_preload_libraries_in_progress
process_shared_preload_libraries_in_progress:
.zero 64
.weak process_shmem_requests_in_progress
process_shmem_requests_in_progress:
.zero 64
.weak progname
progname:
.zero 64
.weak query_id_enabled
query_id_enabled:
.zero 64
.weak quote_all_identifiers
quote_all_identifiers:
.zero 64
.weak random_page_cost
random_page_cost:
.zero 64
.weak reachedConsistency
reachedConsistency:
.zero 64
.weak recoveryEndCommand
recoveryEndCommand:
.zero 64
.weak recoveryRestoreCommand
recoveryRestoreCommand:
.zero 64
.weak recoveryTarget
recoveryTarget:
.zero 64
.weak recoveryTargetAction
recoveryTargetAction:
.zero 64
.weak recoveryTargetInclusive
recoveryTargetInclusive:
.zero 64
.weak recoveryTargetLSN
recoveryTargetLSN:
.zero 64
.weak recoveryTargetName
recoveryTargetName:
.zero 64
.weak recoveryTargetTLI
recoveryTargetTLI:
.zero 64
.weak recoveryTargetTLIRequested
recoveryTargetTLIRequested:
.zero 64
.weak recoveryTargetTime
recoveryTargetTime:
.zero 64
.weak recoveryTargetTimeLineGoal
recoveryTargetTimeLineGoal:
.zero 64
.weak recoveryTargetXid
recoveryTargetXid:
.zero 64
.weak recovery_init_sync_method
recovery_init_sync_method:
.zero 64
.weak recovery_min_apply_delay
recovery_min_apply_delay:
.zero 64
.weak recovery_target_time_string
recovery_target_time_string:
.zero 64
.weak recursive_worktable_factor
recursive_worktable_factor:
.zero 64
.weak remove_temp_files_after_crash
remove_temp_files_after_crash:
.zero 64
.weak replication_parse_result
replication_parse_result:
.zero 64
.weak replorigin_session_origin
replorigin_session_origin:
.zero 64
.weak replorigin_session_origin_lsn
replorigin_session_origin_lsn:
.zero 64
.weak replorigin_session_origin_timestamp
replorigin_session_origin_timestamp:
.zero 64
.weak restart_after_crash
restart_after_crash:
.zero 64
.weak restrict_nonsystem_relation_kind
restrict_nonsystem_relation_kind:
.zero 64
.weak row_security
row_security:
.zero 64
.weak row_security_policy_hook_permissive
row_security_policy_hook_permissive:
.zero 64
.weak row_security_policy_hook_restrictive
row_security_policy_hook_restrictive:
.zero 64
.weak send_abort_for_crash
send_abort_for_crash:
.zero 64
.weak send_abort_for_kill
send_abort_for_kill:
.zero 64
.weak seq_page_cost
seq_page_cost:
.zero 64
.weak session_auth_is_superuser
session_auth_is_superuser:
.zero 64
.weak session_preload_libraries_string
session_preload_libraries_string:
.zero 64
.weak session_timezone
session_timezone:
.zero 64
.weak set_join_pathlist_hook
set_join_pathlist_hook:
.zero 64
.weak set_rel_pathlist_hook
set_rel_pathlist_hook:
.zero 64
.weak shared_preload_libraries_string
shared_preload_libraries_string:
.zero 64
.weak shm_mq_minimum_size
shm_mq_minimum_size:
.zero 64
.weak shmem_exit_inprogress
shmem_exit_inprogress:
.zero 64
.weak shmem_request_hook
shmem_request_hook:
.zero 64
.weak shmem_startup_hook
shmem_startup_hook:
.zero 64
.weak standard_conforming_strings
standard_conforming_strings:
.zero 64
.weak standbyState
standbyState:
.zero 64
.weak sync_method
sync_method:
.zero 64
.weak synchronize_seqscans
synchronize_seqscans:
.zero 64
.weak synchronous_commit
synchronous_commit:
.zero 64
.weak syncrep_parse_error_msg
syncrep_parse_error_msg:
.zero 64
.weak syncrep_parse_result
syncrep_parse_result:
.zero 64
.weak syslogPipe
syslogPipe:
.zero 64
.weak syslog_sequence_numbers
syslog_sequence_numbers:
.zero 64
.weak syslog_split_messages
syslog_split_messages:
.zero 64
.weak tcp_keepalives_count
tcp_keepalives_count:
.zero 64
.weak tcp_keepalives_idle
tcp_keepalives_idle:
.zero 64
.weak tcp_keepalives_interval
tcp_keepalives_interval:
.zero 64
.weak tcp_user_timeout
tcp_user_timeout:
.zero 64
.weak temp_file_limit
temp_file_limit:
.zero 64
.weak trace_recovery_messages
trace_recovery_messages:
.zero 64
.weak trace_sort
trace_sort:
.zero 64
.weak track_commit_timestamp
track_commit_timestamp:
.zero 64
.weak track_io_timing
track_io_timing:
.zero 64
.weak track_wal_io_timing
track_wal_io_timing:
.zero 64
.weak tsearch_op_priority
tsearch_op_priority:
.zero 64
.weak update_process_title
update_process_title:
.zero 64
.weak vacuum_cost_delay
vacuum_cost_delay:
.zero 64
.weak vacuum_cost_limit
vacuum_cost_limit:
.zero 64
.weak vacuum_failsafe_age
vacuum_failsafe_age:
.zero 64
.weak vacuum_freeze_min_age
vacuum_freeze_min_age:
.zero 64
.weak vacuum_freeze_table_age
vacuum_freeze_table_age:
.zero 64
.weak vacuum_multixact_failsafe_age
vacuum_multixact_failsafe_age:
.zero 64
.weak vacuum_multixact_freeze_min_age
vacuum_multixact_freeze_min_age:
.zero 64
.weak vacuum_multixact_freeze_table_age
vacuum_multixact_freeze_table_age:
.zero 64
.weak wake_wal_senders
wake_wal_senders:
.zero 64
.weak wal_compression
wal_compression:
.zero 64
.weak wal_consistency_checking
wal_consistency_checking:
.zero 64
.weak wal_consistency_checking_string
wal_consistency_checking_string:
.zero 64
.weak wal_decode_buffer_size
wal_decode_buffer_size:
.zero 64
.weak wal_init_zero
wal_init_zero:
.zero 64
.weak wal_keep_size_mb
wal_keep_size_mb:
.zero 64
.weak wal_level
wal_level:
.zero 64
.weak wal_log_hints
wal_log_hints:
.zero 64
.weak wal_receiver_create_temp_slot
wal_receiver_create_temp_slot:
.zero 64
.weak wal_receiver_status_interval
wal_receiver_status_interval:
.zero 64
.weak wal_receiver_timeout
wal_receiver_timeout:
.zero 64
.weak wal_recycle
wal_recycle:
.zero 64
.weak wal_retrieve_retry_interval
wal_retrieve_retry_interval:
.zero 64
.weak wal_segment_size
wal_segment_size:
.zero 64
.weak wal_sender_timeout
wal_sender_timeout:
.zero 64
.weak wal_skip_threshold
wal_skip_threshold:
.zero 64
.weak whereToSendOutput
whereToSendOutput:
.zero 64
.weak work_mem
work_mem:
.zero 64
.weak xact_is_sampled
xact_is_sampled:
.zero 64
.weak zero_damaged_pages
zero_damaged_pages:
.zero 64
.text
"#);
