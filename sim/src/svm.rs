//! Running native builds of on-chain programs inside the real Solana VM.
//!
//! Follows `solana-program-test`'s `invoke_builtin_function`, with three differences: account
//! changes are committed in index order (deterministic), changes to accounts that were not passed
//! as writable are errors like on chain, and every interaction of the slashing program with the
//! runtime is a numbered crash point at which the simulator can cut the execution short.
use {
    solana_log_collector::ic_msg,
    solana_program_entrypoint::deserialize,
    solana_program_runtime::{
        invoke_context::InvokeContext, serialization::serialize_parameters, stable_log,
    },
    solana_sdk::{
        account_info::AccountInfo,
        entrypoint::{ProcessInstruction, ProgramResult, SUCCESS},
        instruction::{Instruction, InstructionError},
        pubkey::Pubkey,
        sysvar::Sysvar,
    },
    solana_stable_layout::stable_instruction::StableInstruction,
    solana_timings::ExecuteTimings,
    solana_transaction_context::IndexOfAccount,
    std::{
        cell::{Cell, RefCell},
        collections::BTreeMap,
        mem::transmute,
        panic::AssertUnwindSafe,
        sync::Arc,
    },
};

const UNSUPPORTED_SYSVAR: u64 = 0x11 << 32;

/// What happens at an injected fault point inside the slashing program.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde_derive::Serialize, serde_derive::Deserialize)]
pub enum CrashKind {
    /// The compute budget is exhausted here: execution is aborted.
    OutOfCompute,
    /// A system variable read returns an error code (only at sysvar reads).
    SysvarUnavailable,
    /// The nested call fails before having any effect (only at nested calls).
    CpiFailsBefore,
    /// The nested call has run when execution is aborted (only at nested calls).
    AbortAfterCpi,
}

#[derive(Clone, Copy, Debug, PartialEq, serde_derive::Serialize, serde_derive::Deserialize)]
pub struct CrashPlan {
    /// Which runtime interaction (0-based, counted over the transaction).
    pub at: u32,
    pub kind: CrashKind,
}

/// One observed run of the slashing program.
#[derive(Clone, Debug)]
pub struct Invocation {
    pub stack_height: usize,
    pub accounts: Vec<(Pubkey, bool)>,
    pub data: Vec<u8>,
    pub outcome: Outcome,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok,
    Err(String),
    /// The program itself panicked.
    Panicked(String),
    /// Cut short by the simulator or by a failing nested call.
    Aborted,
}

struct SimAbort(InstructionError);

thread_local! {
    static STACK: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
    static IN_SLASHING: Cell<u32> = const { Cell::new(0) };
    static POINTS: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) };
    static PLAN: Cell<Option<CrashPlan>> = const { Cell::new(None) };
    static FIRED: Cell<Option<CrashKind>> = const { Cell::new(None) };
    static INVOCATIONS: RefCell<Vec<Invocation>> = const { RefCell::new(vec![]) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install() {
    solana_sdk::program_stubs::set_syscall_stubs(Box::new(Stubs {}));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = msg);
        if std::env::var_os("SLASHSIM_PANICS").is_some() {
            default(info);
        }
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// Arms the fault plan for the next transaction and clears the recordings.
pub fn begin_transaction(plan: Option<CrashPlan>) {
    PLAN.with(|p| p.set(plan));
    FIRED.with(|p| p.set(None));
    POINTS.with(|p| p.borrow_mut().clear());
    INVOCATIONS.with(|p| p.borrow_mut().clear());
    STACK.with(|p| p.borrow_mut().clear());
    IN_SLASHING.with(|c| c.set(0));
}

pub struct TxTrace {
    pub invocations: Vec<Invocation>,
    pub points: Vec<&'static str>,
    pub fired: Option<CrashKind>,
}

pub fn end_transaction() -> TxTrace {
    PLAN.with(|p| p.set(None));
    TxTrace {
        invocations: INVOCATIONS.with(|p| std::mem::take(&mut *p.borrow_mut())),
        points: POINTS.with(|p| std::mem::take(&mut *p.borrow_mut())),
        fired: FIRED.with(|p| p.take()),
    }
}

/// Registers a crash point; returns the fault to inject here, if any.
fn point(name: &'static str) -> Option<CrashKind> {
    if IN_SLASHING.with(|c| c.get()) == 0 {
        return None;
    }
    let n = POINTS.with(|p| {
        let mut p = p.borrow_mut();
        p.push(name);
        p.len() as u32 - 1
    });
    let plan = PLAN.with(|p| p.get())?;
    if plan.at != n {
        return None;
    }
    match plan.kind {
        CrashKind::OutOfCompute => {
            FIRED.with(|f| f.set(Some(CrashKind::OutOfCompute)));
            std::panic::resume_unwind(Box::new(SimAbort(
                InstructionError::ComputationalBudgetExceeded,
            )))
        }
        CrashKind::SysvarUnavailable if name.starts_with("sysvar") => {
            FIRED.with(|f| f.set(Some(plan.kind)));
            Some(plan.kind)
        }
        CrashKind::CpiFailsBefore | CrashKind::AbortAfterCpi if name == "cpi" => {
            FIRED.with(|f| f.set(Some(plan.kind)));
            Some(plan.kind)
        }
        _ => None,
    }
}

fn ctx<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = STACK.with(|s| *s.borrow().last().expect("invoke context not set"));
    unsafe { transmute::<usize, &mut InvokeContext>(p) }
}

pub fn invoke_builtin_function(
    f: ProcessInstruction,
    is_slashing: bool,
    invoke_context: &mut InvokeContext,
) -> Result<u64, Box<dyn std::error::Error>> {
    let p = unsafe { transmute::<&mut InvokeContext, usize>(invoke_context) };
    STACK.with(|s| s.borrow_mut().push(p));
    let was = IN_SLASHING.with(|c| c.get());
    IN_SLASHING.with(|c| c.set(is_slashing as u32));
    let r = invoke_inner(f, is_slashing, invoke_context);
    IN_SLASHING.with(|c| c.set(was));
    STACK.with(|s| s.borrow_mut().pop());
    r
}

fn invoke_inner(
    f: ProcessInstruction,
    is_slashing: bool,
    invoke_context: &mut InvokeContext,
) -> Result<u64, Box<dyn std::error::Error>> {
    let transaction_context = &invoke_context.transaction_context;
    let instruction_context = transaction_context.get_current_instruction_context()?;
    let n_accounts = instruction_context.get_number_of_instruction_accounts();
    invoke_context.consume_checked(1)?;
    let log_collector = invoke_context.get_log_collector();
    let program_id = instruction_context.get_last_program_key(transaction_context)?;
    stable_log::program_invoke(
        &log_collector,
        program_id,
        invoke_context.get_stack_height(),
    );
    let mask = invoke_context
        .get_feature_set()
        .mask_out_rent_epoch_in_vm_serialization;
    let (mut parameter_bytes, _regions, _lengths) =
        serialize_parameters(transaction_context, instruction_context, true, mask)?;
    let (program_id, account_infos, input) =
        unsafe { deserialize(&mut parameter_bytes.as_slice_mut()[0] as *mut u8) };

    let mut record = is_slashing.then(|| Invocation {
        stack_height: invoke_context.get_stack_height(),
        accounts: account_infos
            .iter()
            .map(|a| (*a.key, a.is_writable))
            .collect(),
        data: input.to_vec(),
        outcome: Outcome::Ok,
    });
    let slot = record.as_ref().map(|r| {
        INVOCATIONS.with(|i| {
            i.borrow_mut().push(r.clone());
            i.borrow().len() - 1
        })
    });
    let mut note = |o: Outcome| {
        if let (Some(r), Some(i)) = (record.as_mut(), slot) {
            r.outcome = o;
            INVOCATIONS.with(|v| v.borrow_mut()[i] = r.clone());
        }
    };

    match std::panic::catch_unwind(AssertUnwindSafe(|| f(program_id, &account_infos, input))) {
        Ok(Ok(())) => note(Outcome::Ok),
        Ok(Err(e)) => {
            note(Outcome::Err(format!("{e:?}")));
            let err = InstructionError::from(u64::from(e));
            stable_log::program_failure(&log_collector, program_id, &err);
            return Err(Box::new(err));
        }
        Err(payload) => {
            let err = match payload.downcast::<SimAbort>() {
                Ok(a) => {
                    note(Outcome::Aborted);
                    a.0
                }
                Err(_) => {
                    note(Outcome::Panicked(last_panic()));
                    InstructionError::ProgramFailedToComplete
                }
            };
            stable_log::program_failure(&log_collector, program_id, &err);
            return Err(Box::new(err));
        }
    }
    stable_log::program_success(&log_collector, program_id);

    let infos: BTreeMap<Pubkey, AccountInfo> =
        account_infos.into_iter().map(|a| (*a.key, a)).collect();
    let transaction_context = &invoke_context.transaction_context;
    let instruction_context = transaction_context.get_current_instruction_context()?;
    for i in 0..n_accounts as IndexOfAccount {
        let mut acct = instruction_context.try_borrow_instruction_account(transaction_context, i)?;
        let Some(info) = infos.get(acct.get_key()) else {
            continue;
        };
        // The setters enforce the on-chain rules (ownership, writability), so a change the real
        // runtime would refuse is refused here.
        if acct.get_lamports() != info.lamports() {
            acct.set_lamports(info.lamports())?;
        }
        if acct.get_data() != &**info.data.borrow() {
            acct.can_data_be_resized(info.data_len())?;
            acct.can_data_be_changed()?;
            acct.set_data_from_slice(&info.data.borrow())?;
        }
        if acct.get_owner() != info.owner {
            acct.set_owner(info.owner.as_ref())?;
        }
    }
    Ok(0)
}

#[macro_export]
macro_rules! native_processor {
    ($f:expr, $slashing:expr) => {
        |vm, _a0, _a1, _a2, _a3, _a4| {
            let vm = unsafe {
                &mut *((vm as *mut u64).offset(
                    -(solana_program_runtime::solana_sbpf::vm::get_runtime_environment_key()
                        as isize),
                )
                    as *mut solana_program_runtime::solana_sbpf::vm::EbpfVm<
                        solana_program_runtime::invoke_context::InvokeContext,
                    >)
            };
            vm.program_result =
                $crate::svm::invoke_builtin_function($f, $slashing, vm.context_object_pointer)
                    .map_err(|err| {
                        solana_program_runtime::solana_sbpf::error::EbpfError::SyscallError(err)
                    })
                    .into();
        }
    };
}

fn get_sysvar<T: Default + Sysvar + Sized + serde::de::DeserializeOwned + Clone>(
    name: &'static str,
    sysvar: Result<Arc<T>, InstructionError>,
    var_addr: *mut u8,
) -> u64 {
    if point(name).is_some() {
        return UNSUPPORTED_SYSVAR;
    }
    let c = ctx();
    if c.consume_checked(c.get_execution_cost().sysvar_base_cost + T::size_of() as u64)
        .is_err()
    {
        std::panic::resume_unwind(Box::new(SimAbort(
            InstructionError::ComputationalBudgetExceeded,
        )));
    }
    match sysvar {
        Ok(d) => unsafe {
            *(var_addr as *mut _ as *mut T) = T::clone(&d);
            SUCCESS
        },
        Err(_) => UNSUPPORTED_SYSVAR,
    }
}

fn abort(e: InstructionError) -> ! {
    std::panic::resume_unwind(Box::new(SimAbort(e)))
}

struct Stubs {}
impl solana_sdk::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        let c = ctx();
        ic_msg!(c, "Program log: {}", message);
    }
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        solana_program_runtime::solana_sbpf::vm::ContextObject::get_remaining(ctx())
    }

    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let fault = point("cpi");
        if fault == Some(CrashKind::CpiFailsBefore) {
            abort(InstructionError::InsufficientFunds);
        }
        let instruction = StableInstruction::from(instruction.clone());
        let c = ctx();
        let log_collector = c.get_log_collector();
        let tc = &c.transaction_context;
        let ic = tc.get_current_instruction_context().unwrap();
        let caller = ic.get_last_program_key(tc).unwrap();
        stable_log::program_invoke(
            &log_collector,
            &instruction.program_id,
            c.get_stack_height(),
        );
        // On chain any failure inside a nested call ends the caller too.
        let signers = signers_seeds
            .iter()
            .map(|seeds| Pubkey::create_program_address(seeds, caller))
            .collect::<Result<Vec<_>, _>>()
            .unwrap_or_else(|_| abort(InstructionError::InvalidSeeds));
        let (instruction_accounts, program_indices) = c
            .prepare_instruction(&instruction, &signers)
            .unwrap_or_else(|e| abort(e));
        let tc = &c.transaction_context;
        let ic = tc.get_current_instruction_context().unwrap();
        let mut account_indices = Vec::with_capacity(instruction_accounts.len());
        for ia in instruction_accounts.iter() {
            let key = tc.get_key_of_account_at_index(ia.index_in_transaction).unwrap();
            let Some(info_index) = account_infos.iter().position(|a| a.unsigned_key() == key)
            else {
                abort(InstructionError::MissingAccount)
            };
            let info = &account_infos[info_index];
            let mut acct = ic
                .try_borrow_instruction_account(tc, ia.index_in_caller)
                .unwrap_or_else(|e| abort(e));
            if acct.get_lamports() != info.lamports() {
                acct.set_lamports(info.lamports()).unwrap_or_else(|e| abort(e));
            }
            let Ok(data) = info.try_borrow_data() else {
                abort(InstructionError::AccountBorrowFailed)
            };
            if acct.get_data() != *data {
                acct.can_data_be_resized(data.len()).unwrap_or_else(|e| abort(e));
                acct.set_data_from_slice(&data).unwrap_or_else(|e| abort(e));
            }
            if acct.get_owner() != info.owner {
                acct.set_owner(info.owner.as_ref()).unwrap_or_else(|e| abort(e));
            }
            if ia.is_writable {
                account_indices.push((ia.index_in_caller, info_index));
            }
        }
        let mut units = 0;
        c.process_instruction(
            &instruction.data,
            &instruction_accounts,
            &program_indices,
            &mut units,
            &mut ExecuteTimings::default(),
        )
        .unwrap_or_else(|e| abort(e));

        let tc = &c.transaction_context;
        let ic = tc.get_current_instruction_context().unwrap();
        for (index_in_caller, info_index) in account_indices.into_iter() {
            let acct = ic
                .try_borrow_instruction_account(tc, index_in_caller)
                .unwrap_or_else(|e| abort(e));
            let info = &account_infos[info_index];
            **info.try_borrow_mut_lamports().unwrap() = acct.get_lamports();
            if info.owner != acct.get_owner() {
                #[allow(mutable_transmutes, clippy::transmute_ptr_to_ptr)]
                let owner = unsafe { transmute::<&Pubkey, &mut Pubkey>(info.owner) };
                *owner = *acct.get_owner();
            }
            let new = acct.get_data();
            if info.data_len() != new.len() {
                #[allow(deprecated)]
                info.realloc(new.len(), true)?;
            }
            info.try_borrow_mut_data()?.clone_from_slice(new);
        }
        stable_log::program_success(&log_collector, &instruction.program_id);
        if fault == Some(CrashKind::AbortAfterCpi) {
            abort(InstructionError::ComputationalBudgetExceeded);
        }
        Ok(())
    }

    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar("sysvar-clock", ctx().get_sysvar_cache().get_clock(), a)
    }
    fn sol_get_epoch_schedule_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar(
            "sysvar-epoch-schedule",
            ctx().get_sysvar_cache().get_epoch_schedule(),
            a,
        )
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar("sysvar-rent", ctx().get_sysvar_cache().get_rent(), a)
    }
    fn sol_get_last_restart_slot(&self, a: *mut u8) -> u64 {
        get_sysvar(
            "sysvar-restart",
            ctx().get_sysvar_cache().get_last_restart_slot(),
            a,
        )
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (id, data) = ctx().transaction_context.get_return_data();
        Some((*id, data.to_vec()))
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let c = ctx();
        let tc = &mut c.transaction_context;
        let ic = tc.get_current_instruction_context().unwrap();
        let caller = *ic.get_last_program_key(tc).unwrap();
        tc.set_return_data(caller, data.to_vec()).unwrap();
    }
    fn sol_get_stack_height(&self) -> u64 {
        let _ = point("stack-height");
        ctx().get_stack_height() as u64
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        // Same walk as the runtime's syscall.
        let c = ctx();
        let height = c.get_stack_height();
        let tc = &c.transaction_context;
        let len = tc.get_instruction_trace_length();
        let mut reverse = 0;
        for i in (0..len).rev() {
            let ic = tc.get_instruction_context_at_index_in_trace(i).ok()?;
            if ic.get_stack_height() < height {
                break;
            }
            if ic.get_stack_height() == height {
                if index.saturating_add(1) == reverse {
                    let accounts = (0..ic.get_number_of_instruction_accounts())
                        .map(|j| {
                            Some(solana_sdk::instruction::AccountMeta {
                                pubkey: *tc
                                    .get_key_of_account_at_index(
                                        ic.get_index_of_instruction_account_in_transaction(j)
                                            .ok()?,
                                    )
                                    .ok()?,
                                is_signer: ic.is_instruction_account_signer(j).ok()?,
                                is_writable: ic.is_instruction_account_writable(j).ok()?,
                            })
                        })
                        .collect::<Option<Vec<_>>>()?;
                    return Some(Instruction {
                        program_id: *ic.get_last_program_key(tc).ok()?,
                        accounts,
                        data: ic.get_instruction_data().to_vec(),
                    });
                }
                reverse += 1;
            }
        }
        None
    }
}

