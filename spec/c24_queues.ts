// C24: queued tasks run one at a time, in order, each once; a mutex has one holder, in order of asking.
import * as G from "./ghost.ts";
import { Queue } from "file:///repo/utilities/2_queue.ts";
import { Mutex } from "file:///repo/utilities/0_mutex.ts";

// How a task behaves: it ends at once, fails at once, takes some turns, is held until released and then ends or fails, or queues another task.
class Journal {
  queue = new Queue("test");
  added: number[] = [];
  started: number[] = [];
  ended: number[] = [];
  running = 0;
  overlap = false;
  held: any[] = [];
  next = 0;
  add(kind: number) {
    const n = this.next++;
    this.added.push(n);
    this.queue.add(async () => {
      this.started.push(n);
      ++this.running;
      if (this.running !== 1) this.overlap = true;
      try {
        if (kind === 1) throw new Error("failed");
        if (kind === 2) {
          await null;
          await null;
        }
        if (kind === 3 || kind === 4) await new Promise((r) => this.held.push(r));
        if (kind === 4) throw new Error("failed late");
        if (kind === 5) this.add(0);
        if (kind === 6) {
          await null;
          this.add(1);
          await null;
        }
      } finally {
        --this.running;
        this.ended.push(n);
      }
    });
  }
  check() {
    G.assert(!this.overlap, "tasks never overlap");
    G.assert(this.started.every((n, i) => n === this.added[i]), "no task runs twice and none is skipped");
  }
}
const KINDS = 7;

export async function queue_history() {
  const from = G.choose(3);
  await queueHistory(3, (i) => i >= from);
}
export async function longer_queue_history() {
  await queueHistory(4 + G.choose(4), () => G.choose(2) === 1);
}
async function queueHistory(tasks: number, pause: (i: number) => boolean) {
  const j = new Journal();
  for (let i = 0; i < tasks; ++i) {
    j.add(G.choose(KINDS));
    if (pause(i)) await G.settle();
    j.check();
  }
  for (let i = 0; i < 2 * tasks; ++i) {
    await G.settle();
    j.check();
    G.assert(j.started.length === j.ended.length + j.held.length && (j.held.length > 0 || j.started.length === j.added.length), "a task that is not over keeps the queue, and nothing else does");
    if (j.held.length) j.held.shift()();
  }
  G.assert(j.started.length === j.added.length && j.ended.length === j.added.length, "every task has run, and has been waited for");
  // an emptied queue goes on as a new one does
  j.add(0);
  j.add(0);
  await G.settle();
  j.check();
  G.assert(j.ended.length === j.added.length, "tasks added to a queue that had emptied run too");
}

export async function queues_are_independent() {
  const a = new Journal(), b = new Journal();
  a.add(3);
  b.add([0, 1, 2, 5, 6][G.choose(5)]);
  a.add(0);
  await G.settle();
  G.assert(b.ended.length === b.added.length && a.ended.length === 0 && a.started.length === 1, "a waiting task of one queue does not hold another queue");
  a.held.shift()();
  await G.settle();
  G.assert(a.ended.length === 2, "and goes on when its own is released");
}

export async function mutex_history() {
  await mutexHistory(3);
}
export async function longer_mutex_history() {
  await mutexHistory(4 + G.choose(4));
}
async function mutexHistory(asked: number) {
  const m = new Mutex();
  const got: number[] = [];
  let holders = 0;
  let overlap = false;
  const held: any[] = [];
  const ask = async (n: number, kind: number) => {
    const unlock = await m.lock();
    got.push(n);
    if (++holders !== 1) overlap = true;
    if (kind === 1) await null;
    if (kind === 2) await new Promise((r) => held.push(r));
    --holders;
    unlock();
    if (kind === 3) unlock();
  };
  for (let i = 0; i < asked; ++i) {
    void ask(i, G.choose(4));
    if (G.choose(2)) await G.settle();
  }
  for (let i = 0; i < asked + 2; ++i) {
    await G.settle();
    G.assert(!overlap && holders <= 1 && held.length <= 1, "one holder at a time");
    G.assert(got.every((n, k) => n === k), "in the order of asking");
    G.assert(held.length === 1 || got.length === asked, "a free mutex is given to whoever waits");
    if (held.length) held.shift()();
  }
  G.assert(got.length === asked, "everyone has held it");
  let again = false;
  void m.lock().then(() => {
    again = true;
  });
  await G.settle();
  G.assert(again, "and it can be taken again");
}
