------------------------------- MODULE WatServer -------------------------------
(***************************************************************************)
(* The conversation between an editor and the language server.  A state is *)
(*   phase : "new", "ready", "down"                                        *)
(*   push  : the client wants diagnostics to be published                  *)
(*   docs  : the current text of every document opened so far              *)
(*   open  : the documents now open                                        *)
(*   owed  : what the server still has to send, in order                   *)
(* Texts are opaque.  An answer is a function Answer(text, question) of    *)
(* the text the document has when the question arrives: not of the history *)
(* of the document, of other documents, or of earlier questions.           *)
(* Reply(s, m) is the state after message m arrived in state s.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Start == [phase |-> "new", push |-> FALSE, docs |-> <<>>, open |-> {}, owed |-> <<>>]
Known(s, u) == u \in DOMAIN s.docs
With(f, u, t) == (u :> t) @@ f
Owe(s, o) == [s EXCEPT !.owed = Append(@, o)]

\* something that must be sent: a response with a result, with an error, with either; a publication
Result(id, u, t, q) == [k |-> "result", id |-> id, u |-> u, t |-> t, q |-> q]
Error(id) == [k |-> "error", id |-> id, u |-> "", t |-> "", q |-> ""]
Either(id) == [k |-> "either", id |-> id, u |-> "", t |-> "", q |-> ""]
Publish(u, t) == [k |-> "publish", id |-> 0, u |-> u, t |-> t, q |-> "diagnostics"]
Clear(u) == [k |-> "publish", id |-> 0, u |-> u, t |-> "", q |-> "nothing"]

Put(s, u, t) ==
  LET r == [s EXCEPT !.docs = With(@, u, t)] IN IF s.push THEN Owe(r, Publish(u, t)) ELSE r

Reply(s, m) ==
  CASE m.k = "initialize" -> Owe([s EXCEPT !.phase = "ready", !.push = ~m.pull], Either(m.id))
    [] m.k = "open" -> Put([s EXCEPT !.open = @ \cup {m.u}], m.u, m.t)
    \* the changes of one notification apply one after the other; each is a whole text
    [] m.k = "change" -> IF m.ts = <<>> THEN s ELSE Put(s, m.u, m.ts[Len(m.ts)])
    [] m.k = "close" -> Owe([s EXCEPT !.open = @ \ {m.u}], Clear(m.u))
    [] m.k = "ask" -> IF m.u \in s.open THEN Owe(s, Result(m.id, m.u, s.docs[m.u], m.q)) ELSE Owe(s, Either(m.id))
    [] m.k = "malformed" -> Owe(s, Error(m.id))
    [] m.k = "unknown" -> Owe(s, Error(m.id))
    [] m.k = "shutdown" -> Owe([s EXCEPT !.phase = "down"], Either(m.id))
    [] m.k \in {"note", "response", "badnote"} -> s        \* notifications nobody handles, stray responses

\* what a well-behaved editor may send
Legal(s, m) ==
  CASE m.k = "initialize" -> s.phase = "new"
    [] m.k = "open" -> s.phase = "ready" /\ m.u \notin s.open
    [] m.k \in {"change", "close"} -> s.phase = "ready" /\ m.u \in s.open
    [] OTHER -> s.phase = "ready"

(***************************************************************************)
(* What the response to initialize must announce for a request to be       *)
(* answered.  Requests of the protocol that no feature offers map to        *)
(* features that are never announced.                                       *)
(***************************************************************************)
Provider ==
     "textDocument/prepareCallHierarchy" :> "callHierarchyProvider"
  @@ "callHierarchy/incomingCalls" :> "callHierarchyProvider"
  @@ "callHierarchy/outgoingCalls" :> "callHierarchyProvider"
  @@ "textDocument/codeAction" :> "codeActionProvider"
  @@ "codeAction/resolve" :> "codeActionProvider.resolveProvider"
  @@ "textDocument/completion" :> "completionProvider"
  @@ "completionItem/resolve" :> "completionProvider.resolveProvider"
  @@ "textDocument/definition" :> "definitionProvider"
  @@ "textDocument/typeDefinition" :> "typeDefinitionProvider"
  @@ "textDocument/declaration" :> "declarationProvider"
  @@ "textDocument/implementation" :> "implementationProvider"
  @@ "textDocument/diagnostic" :> "diagnosticProvider"
  @@ "workspace/diagnostic" :> "diagnosticProvider.workspaceDiagnostics"
  @@ "textDocument/documentSymbol" :> "documentSymbolProvider"
  @@ "workspace/symbol" :> "workspaceSymbolProvider"
  @@ "textDocument/documentHighlight" :> "documentHighlightProvider"
  @@ "textDocument/foldingRange" :> "foldingRangeProvider"
  @@ "textDocument/formatting" :> "documentFormattingProvider"
  @@ "textDocument/rangeFormatting" :> "documentRangeFormattingProvider"
  @@ "textDocument/onTypeFormatting" :> "documentOnTypeFormattingProvider"
  @@ "textDocument/hover" :> "hoverProvider"
  @@ "textDocument/signatureHelp" :> "signatureHelpProvider"
  @@ "textDocument/inlayHint" :> "inlayHintProvider"
  @@ "inlayHint/resolve" :> "inlayHintProvider.resolveProvider"
  @@ "textDocument/references" :> "referencesProvider"
  @@ "textDocument/rename" :> "renameProvider"
  @@ "textDocument/prepareRename" :> "renameProvider.prepareProvider"
  @@ "textDocument/selectionRange" :> "selectionRangeProvider"
  @@ "textDocument/semanticTokens/full" :> "semanticTokensProvider.full"
  @@ "textDocument/semanticTokens/full/delta" :> "semanticTokensProvider.full.delta"
  @@ "textDocument/semanticTokens/range" :> "semanticTokensProvider.range"
  @@ "textDocument/codeLens" :> "codeLensProvider"
  @@ "textDocument/documentLink" :> "documentLinkProvider"
  @@ "textDocument/documentColor" :> "colorProvider"
  @@ "textDocument/linkedEditingRange" :> "linkedEditingRangeProvider"
  @@ "textDocument/moniker" :> "monikerProvider"
  @@ "textDocument/inlineValue" :> "inlineValueProvider"
  @@ "textDocument/prepareTypeHierarchy" :> "typeHierarchyProvider"
  @@ "workspace/executeCommand" :> "executeCommandProvider"
Announces(features, method) == method \in DOMAIN Provider /\ Provider[method] \in features
\* documents are opened, closed and changed by whole texts (Reply)
AnnouncedSync == [openClose |-> TRUE, change |-> 1]
===============================================================================
