namespace FsToolkit.ErrorHandling
open System
[<AutoOpen>]
module ResultCE =
    type ResultBuilder() =
        member _.Return(v: 'a) : Result<'a,'e> = Ok v
        member _.ReturnFrom(r: Result<'a,'e>) = r
        member _.Bind(r: Result<'a,'e>, f: 'a -> Result<'b,'e>) = match r with Ok v -> f v | Error e -> Error e
        member _.Zero() : Result<unit,'e> = Ok ()
        member _.Delay(f: unit -> Result<'a,'e>) = f
        member _.Run(f: unit -> Result<'a,'e>) = f ()
        member this.Combine(r: Result<unit,'e>, f: unit -> Result<'a,'e>) = match r with Ok () -> f () | Error e -> Error e
        member this.TryWith(f: unit -> Result<'a,'e>, h) = try f () with e -> h e
        member this.TryFinally(f: unit -> Result<'a,'e>, c: unit -> unit) = try f () finally c ()
        member this.Using(r: #IDisposable, f) = try f r finally (if not (isNull (box r)) then r.Dispose())
        member this.While(g: unit -> bool, f: unit -> Result<unit,'e>) : Result<unit,'e> =
            let mutable res = Ok ()
            while (match res with Ok () -> g () | Error _ -> false) do res <- f ()
            res
        member this.For(s: seq<'a>, f: 'a -> Result<unit,'e>) : Result<unit,'e> =
            use en = s.GetEnumerator()
            this.While((fun () -> en.MoveNext()), (fun () -> f en.Current))
    let result = ResultBuilder()

[<RequireQualifiedAccess>]
module List =
    let traverseResultM (f: 'a -> Result<'b,'e>) (xs: 'a list) : Result<'b list,'e> =
        let rec go acc l =
            match l with
            | [] -> Ok (List.rev acc)
            | x :: t -> match f x with Ok v -> go (v :: acc) t | Error e -> Error e
        go [] xs
    let sequenceResultM xs = traverseResultM id xs
