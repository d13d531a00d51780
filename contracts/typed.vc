#fn Instruction::into_from
#spec
    ensures r == (match self { Instruction::From(x) => Some(x), _ => None })
#fn Instruction::as_from
#spec
    ensures match *self { Instruction::From(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<FromInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::From(self) }
#fn FromInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::From(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "FromInstruction"@, _ => false }) }
#fn Instruction::into_arg
#spec
    ensures r == (match self { Instruction::Arg(x) => Some(x), _ => None })
#fn Instruction::as_arg
#spec
    ensures match *self { Instruction::Arg(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<ArgInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Arg(self) }
#fn ArgInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::Arg(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "ArgInstruction"@, _ => false }) }
#fn Instruction::into_label
#spec
    ensures r == (match self { Instruction::Label(x) => Some(x), _ => None })
#fn Instruction::as_label
#spec
    ensures match *self { Instruction::Label(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<LabelInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Label(self) }
#fn LabelInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::Label(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "LabelInstruction"@, _ => false }) }
#fn Instruction::into_run
#spec
    ensures r == (match self { Instruction::Run(x) => Some(x), _ => None })
#fn Instruction::as_run
#spec
    ensures match *self { Instruction::Run(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<RunInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Run(self) }
#fn RunInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::Run(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "RunInstruction"@, _ => false }) }
#fn Instruction::into_entrypoint
#spec
    ensures r == (match self { Instruction::Entrypoint(x) => Some(x), _ => None })
#fn Instruction::as_entrypoint
#spec
    ensures match *self { Instruction::Entrypoint(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<EntrypointInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Entrypoint(self) }
#fn EntrypointInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match instruction { Instruction::Entrypoint(x) => r is Ok && r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "EntrypointInstruction"@, _ => false }) }
#fn Instruction::into_cmd
#spec
    ensures r == (match self { Instruction::Cmd(x) => Some(x), _ => None })
#fn Instruction::as_cmd
#spec
    ensures match *self { Instruction::Cmd(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<CmdInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Cmd(self) }
#fn CmdInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::Cmd(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "CmdInstruction"@, _ => false }) }
#fn Instruction::into_copy
#spec
    ensures r == (match self { Instruction::Copy(x) => Some(x), _ => None })
#fn Instruction::as_copy
#spec
    ensures match *self { Instruction::Copy(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<CopyInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Copy(self) }
#fn CopyInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::Copy(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "CopyInstruction"@, _ => false }) }
#fn Instruction::into_env
#spec
    ensures r == (match self { Instruction::Env(x) => Some(x), _ => None })
#fn Instruction::as_env
#spec
    ensures match *self { Instruction::Env(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<EnvInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Env(self) }
#fn EnvInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::Env(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "EnvInstruction"@, _ => false }) }
#fn Instruction::into_misc
#spec
    ensures r == (match self { Instruction::Misc(x) => Some(x), _ => None })
#fn Instruction::as_misc
#spec
    ensures match *self { Instruction::Misc(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn Instruction::from@From<MiscInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Misc(self) }
#fn MiscInstruction::try_from@TryFrom<Instruction>
#spec
    ensures match *instruction { Instruction::Misc(x) => r is Ok && *r->Ok_0 == x,
        _ => r is Err && (match r->Err_0 { Error::ConversionError { from: _, to } => to@ == "MiscInstruction"@, _ => false }) }
#fn Instruction::span
#spec
    ensures r == (match *self { Instruction::From(x) => x.span, Instruction::Arg(x) => x.span, Instruction::Label(x) => x.span, Instruction::Run(x) => x.span, Instruction::Entrypoint(x) => x.span, Instruction::Cmd(x) => x.span, Instruction::Copy(x) => x.span, Instruction::Env(x) => x.span, Instruction::Misc(x) => x.span })
#fn ShellOrExecExpr::into_shell
#spec
    ensures r == (match self { ShellOrExecExpr::Shell(x) => Some(x), _ => None })
#fn ShellOrExecExpr::as_shell
#spec
    ensures match self { ShellOrExecExpr::Shell(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn ShellOrExecExpr::into_exec
#spec
    ensures r == (match self { ShellOrExecExpr::Exec(x) => Some(x), _ => None })
#fn ShellOrExecExpr::as_exec
#spec
    ensures match self { ShellOrExecExpr::Exec(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn RunInstruction::into_shell
#spec
    ensures r == (match self.expr { ShellOrExecExpr::Shell(x) => Some(x), _ => None })
#fn RunInstruction::as_shell
#spec
    ensures match self.expr { ShellOrExecExpr::Shell(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn RunInstruction::into_exec
#spec
    ensures r == (match self.expr { ShellOrExecExpr::Exec(x) => Some(x), _ => None })
#fn RunInstruction::as_exec
#spec
    ensures match self.expr { ShellOrExecExpr::Exec(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn CmdInstruction::into_shell
#spec
    ensures r == (match self.expr { ShellOrExecExpr::Shell(x) => Some(x), _ => None })
#fn CmdInstruction::as_shell
#spec
    ensures match self.expr { ShellOrExecExpr::Shell(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn CmdInstruction::into_exec
#spec
    ensures r == (match self.expr { ShellOrExecExpr::Exec(x) => Some(x), _ => None })
#fn CmdInstruction::as_exec
#spec
    ensures match self.expr { ShellOrExecExpr::Exec(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn EntrypointInstruction::into_shell
#spec
    ensures r == (match self.expr { ShellOrExecExpr::Shell(x) => Some(x), _ => None })
#fn EntrypointInstruction::as_shell
#spec
    ensures match self.expr { ShellOrExecExpr::Shell(x) => r is Some && *r->Some_0 == x, _ => r is None }
#fn EntrypointInstruction::into_exec
#spec
    ensures r == (match self.expr { ShellOrExecExpr::Exec(x) => Some(x), _ => None })
#fn EntrypointInstruction::as_exec
#spec
    ensures match self.expr { ShellOrExecExpr::Exec(x) => r is Some && *r->Some_0 == x, _ => r is None }
